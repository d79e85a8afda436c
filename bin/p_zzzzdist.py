# Disturb (C47)
_DI_ALL = ["SOLAR_RADIATION_PRESSURE_DISTURBANCE", "AIR_DRAG", "GRAVITY_GRADIENT", "MAGNETIC_DISTURBANCE", "THIRD_BODY_GRAVITY"]
def _di_gen(R, tier, rng):
    hs = []
    v3 = lambda m: [rng.randint(-m, m) for _ in range(3)]
    def pos():
        while True:
            x = [10 * rng.randint(-760, 760) for _ in range(3)]
            if 6560 ** 2 <= sum(y * y for y in x) <= 7600 ** 2: return x
    def vel():
        while True:
            x = [rng.choice([0, rng.randint(-8000, 8000)]) for _ in range(3)]
            if 5000 ** 2 <= sum(y * y for y in x) <= 9000 ** 2: return x
    def far(m):
        while True:
            x = [rng.choice([0, rng.randint(-m, m), rng.randint(-m, m)]) for _ in range(3)]
            if sum(y * y for y in x) > (m * m) // 8: return x
    inert = lambda: [rng.randint(1, 60) for _ in range(3)] + [rng.randint(-10, 10) for _ in range(3)]
    for _ in range(250 if tier == "quick" else 6000):
        faces = [{"n": _dir(rng), "p": v3(100), "a": rng.choice([0, rng.randint(1, 200), rng.randint(1, 200)]), "rf": rng.choice([0, 100, rng.randint(0, 100)]), "sp": rng.choice([0, 100, rng.randint(0, 100)]), "as": rng.choice([0, 100, rng.randint(0, 100)])} for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        on = _DI_ALL if rng.random() < .6 else [x for x in _DI_ALL if rng.random() < .6]
        mu = rng.choice([0, 0, 5, 400]); near = rng.random() < .35
        h = [{"op": "reset", "on": on, "faces": faces, "raw": rng.random() < .5, "cog": v3(30), "in": inert(), "m": v3(1000), "noise": rng.choice([[0, 0, 0], [300, 0, 0], [0, 100, 50], [200, 50, 80]]),
              "tw": rng.randint(200, 400), "tm": rng.randint(200, 1500), "mw": rng.randint(14, 30), "third": rng.choice([[], ["SUN"], ["MOON"], ["SUN", "MOON"]]), "mu": mu}]
        for i in range(rng.randint(2, 5)):
            if i and rng.random() < .35:
                k = rng.choice(["cog", "in", "area"]); h.append({"op": "set", k: v3(40) if k == "cog" else inert() if k == "in" else rng.randint(1, 200)})
            q = _lk_quat(rng); s = far(1500); at = pos()
            if faces and rng.random() < .3: n = rng.choice(faces)["n"]; s = [x * (1000 // max(map(abs, n))) for x in n]; q = [0, 0, 0, 1]; at = [10 * x * int(700 / sum(y * y for y in n) ** .5) for x in n]   # straight onto a face
            h.append({"op": "at", "p": at, "v": vel(), "q": q, "sun": far(9000) if near else s, "moon": far(6000) if near else [3, 1, 1], "k": 10 if near else 100000, "mu": mu})
        hs.append(h)
    return hs
prop("C47", title="Forces and torques from outside are those of their physics",
  statement="Sunlight pushes every face that sees the Sun by what it absorbs, mirrors and scatters, in proportion to the sunlight that reaches the spacecraft, and air pushes every face that moves into it as free molecules do, relative to the air that turns with the Earth; their torques are about the current centre of gravity. The gradient of gravity and the residual magnetic moment turn the spacecraft as its attitude, inertia and moment demand, each spacecraft with its own noise, and other bodies pull it by the difference of their pull on it and on the centre. A disturbance that is not enabled does nothing, and what is logged is what acts.",
  over=["inputs", "configurations", "histories"], qtext="all faces, attitudes, places, velocities, settings and changes of the structure",
  why=TESTS + "No test computes a disturbance; signs, frames and reference points show only at particular attitudes and shapes, stale references to the structure only after it changes.",
  files=["src/disturbances/surface_force.cpp", "src/disturbances/solar_radiation_pressure_disturbance.cpp", "src/disturbances/air_drag.cpp", "src/disturbances/gravity_gradient.cpp", "src/disturbances/magnetic_disturbance.cpp", "src/disturbances/third_body_gravity.cpp", "src/simulation/spacecraft/structure/surface.cpp", "src/simulation/spacecraft/structure/initialize_structure.cpp"],
  mech=[("faces", "SurfaceForce::CalcTorqueForce, InitSurfaces"), ("sunlight", "SolarRadiationPressureDisturbance::CalcCoefficients"), ("air", "AirDrag::Update, CalcCnCt"), ("gravity gradient", "GravityGradient::CalcTorque_b_Nm"), ("magnetic moment", "MagneticDisturbance::CalcRMM"), ("other bodies", "ThirdBodyGravity::CalcAcceleration_i_m_s2")],
  observe=["force, torque and acceleration of every disturbance, logged values, magnetic moment, share of sunlight"],
  note="Up to six faces in directions with whole-numbered length; forces to 0.1 to 0.3 percent of the largest possible; a face the air hits at less than three times the molecular speed only to the size of that speed. Every bounded sequence over a few shapes, and random ones.",
  parts=[dict(module="Disturb", driver="disturb", groups=[mc(({"Deep": 1}, {"Deep": 2}), tag="acting", limit=(1500, 15000)), gen("random", _di_gen)])])
