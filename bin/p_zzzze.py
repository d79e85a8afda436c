# Structure (C61)
def _st_gen(R, tier, rng):
    D = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [3, 4, 0], [0, 3, 4], [2, 2, 1], [2, -1, 2], [4, 0, -3], [1, 2, -2]]
    def d(): v = rng.choice(D); return [x * rng.choice([1, -1]) for x in v] if rng.random() < .3 else [-x for x in v] if rng.random() < .3 else list(v)
    def p(): return [rng.randint(-9, 9) for _ in range(3)]
    def inertia(): return [rng.randint(4000, 9000) for _ in range(3)] + [rng.randint(-900, 900) for _ in range(3)]
    def face(bad=False):
        f = {"a": rng.randint(0, 5), "ref": rng.randint(0, 10), "spec": rng.randint(0, 10), "air": rng.randint(0, 10), "pos": p(), "n": d()}
        if bad: k = rng.choice(["a", "ref", "spec", "air"]); f[k] = -1 if k == "a" else rng.choice([-1, 11, 12])
        return f
    hs = []
    for _ in range(80 if tier == "quick" else 1500):
        h = [{"op": "reset", "m": rng.choice([5, 100, 450, 1000]), "cog": p(), "I": inertia(), "faces": [face(rng.random() < .08) for _ in range(rng.randint(0, 5))]}]
        for _ in range(rng.randint(3, 9)):
            if rng.random() < .6:
                f = rng.choice(["mass", "add", "cog", "I", "face", "drop", "a", "ref", "spec", "air", "pos", "n", "a", "n", "face"])
                v = p() if f in ("cog", "pos") else d() if f == "n" else inertia() if f == "I" else [rng.choice([-50, -1, 0, 1, 30, 300])] if f == "mass" else \
                    [rng.randint(-150, 100)] if f == "add" else [rng.randint(-1, 5)] if f == "a" else [rng.randint(1, 4)] if f == "face" else [rng.randint(-1, 11)]
                h.append({"op": "set", "f": f, "k": rng.randint(0, 3), "v": v})
            else: h.append({"op": "step", "sun": d(), "fo": [rng.randint(-5000, 5000) for _ in range(3)], "to": [rng.randint(-99999, 99999) for _ in range(3)]})
        h.append({"op": "step", "sun": d(), "fo": [0, 100, 0], "to": [0, 3000, 0]}); hs.append(h)
    return hs
prop("C61", title="Mass, inertia and faces can change at any time, and the motion follows",
  statement="Mass, centre of gravity, inertia and faces of a spacecraft are those of its file until they are changed; changes to impossible values are refused, and faces from the first impossible one on are left out. Faces may be changed, added or removed at any time. From the next step on, sunlight and motion are those of the changed spacecraft.",
  over=["inputs", "histories"], qtext="all structures, all sequences of changes and steps, all directions of the Sun, forces and torques",
  why=TESTS + "No test builds a spacecraft or changes one during a run.",
  files=["src/simulation/spacecraft/structure/kinematics_parameters.hpp", "src/simulation/spacecraft/structure/surface.hpp", "src/simulation/spacecraft/structure/initialize_structure.cpp", "src/simulation/spacecraft/structure/structure.cpp", "src/simulation/spacecraft/spacecraft.cpp", "src/disturbances/surface_force.cpp"],
  mech=[("structure", "KinematicsParameters, Surface, InitSurfaces"), ("light", "SurfaceForce::CalcTorqueForce"), ("motion", "Spacecraft::Update, Dynamics::AddForce_b_N")],
  observe=["mass, centre of gravity, inertia, faces, force and torque of the light, change of velocity and rate in a step"],
  note="Attitude and rate are set back before each step, so that gyroscopic terms stay out (C38).",
  parts=[dict(module="Structure", driver="structure", groups=[mc(({"Deep": 3}, {"Deep": 4}), tag="small", limit=(1000, 20000)), gen("random", _st_gen)])])
