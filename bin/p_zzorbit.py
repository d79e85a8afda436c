# Orbit propagation (C37, C50)
# an integration step that divides the update, or leaves a remainder of any size (a tiny, a nearly whole one)
def _or_step(rng, P, per): return P // 600 * rng.choice(per) if rng.random() < .5 else P // 600 * 1000 * 1000 // (1000 * rng.choice([1, 1, 2]) + rng.choice([3, 20, 45, 300, 700, 980]))
def _or_reset(rng, kinds, emax, how=None):
    kind = rng.choice(kinds); e = rng.choice([0, 0, 1, 5, 10, 20, 30, 45, 50, 60, 70, 75, 80, 85, 88, 90]); e = min(e, emax)
    if kind != "kepler": e = min(e, 45)
    how = how or rng.choice(["direct", "pv", "oe", "default"])
    if kind == "other" and how == "direct": how = "pv"
    P = rng.choice([3600, 6000, 7200, 12000, 18000, 43200, 86400])
    return {"op": "reset", "kind": kind, "how": how, "a": rng.choice([30000, 35000, 42000]) if e <= 75 else rng.choice([80000, 100000]), "P": P, "e": e, "i": rng.choice([0, 180, 90, 45, rng.randint(1, 179), rng.randint(1, 179), rng.randint(1, 179)]), "o": rng.choice([0, 90, 180, 270, rng.randint(0, 359), rng.randint(0, 359)]),
            "w": rng.choice([0, 90, 180, 270, rng.randint(0, 359), rng.randint(0, 359)]), "m": rng.choice([0, 180000, 90000, rng.randint(1, 359) * 1000, rng.randint(0, 359999)]), "step": _or_step(rng, P, [300, 300, 600]), "tol": rng.choice([0, 1, 100, 10000]), "on": rng.random() < .9}
def _or_two(R, tier, rng):
    hs = []
    for _ in range(250 if tier == "quick" else 6000):
        r = _or_reset(rng, ["kepler", "kepler", "kepler", "rk4", "encke", "other"], 90); P = r["P"]; h = [r]
        if r["kind"] != "kepler" and r["e"] > 20: r["step"] = _or_step(rng, P, [150, 150, 200])
        for _ in range(rng.randint(2, 8)):
            x = rng.random()
            if x < .12: h.append({"op": "power", "on": rng.random() < .7})
            elif x < .22: h.append({"op": "att", "q": _lk_quat(rng)})
            elif x < .3 and r["kind"] == "kepler": h.append({"op": "acc", "a": [rng.randint(-50000, 50000) for _ in range(3)]})
            else: h.append({"op": "go", "dt": P // 600 * 1000 * rng.choice([1, 2, 5, 20, 50]), "n": rng.choice([1, 1, 2, 5, 15])})
        h += [{"op": "power", "on": True}, {"op": "go", "dt": P // 600 * 1000 * rng.choice([1, 3, 77]), "n": 1}]
        hs.append(h)
    return hs
def _or_push(R, tier, rng):
    hs = []
    for _ in range(250 if tier == "quick" else 6000):
        r = _or_reset(rng, ["rk4", "encke", "rk4", "encke", "other"], 20); P = r["P"]; r["on"] = True; r["tol"] = min(r["tol"], 100); r["step"] = _or_step(rng, P, [150, 150, 150, 300, 200]); h = [r]; pushed = 0; acc = False
        A = lambda k: [rng.randint(-k, k) for _ in range(3)]
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < .2: acc = True; h.append({"op": "acc", "a": A(40000)})
            elif x < .3: acc = False; h.append({"op": "acc", "a": [0, 0, 0]})
            elif x < .5:
                acc = True; f = rng.choice(["accel", "force_i", "force_b"]); mass = rng.choice([1, 2, 5, 50]); h.append({"op": "add", "f": f, "a": A(20000 * (1 if f == "accel" else mass)), "mass": mass, "q": _lk_quat(rng)})
            elif x < .55: h.append({"op": "att", "q": _lk_quat(rng)})
            elif acc or rng.random() < .5: h.append({"op": "go", "dt": P // 600 * 1000 * rng.choice([1, 1, 2]), "n": rng.choice([1, 1, 1, 8])})
            else: h.append({"op": "go", "dt": P // 600 * 1000 * rng.choice([1, 2, 1 if r["kind"] == "encke" else 20]), "n": rng.choice([1, 5, 15])})
        h.append({"op": "go", "dt": P // 600 * 1000, "n": 1})
        hs.append(h)
    return hs
_OB = dict(module="Orbit", driver="orbit")
prop("C37", title="An orbit is the same orbit however it is given and propagated",
  statement="Given by elements or by position and velocity, and propagated analytically, by integration or about a reference orbit, an undisturbed spacecraft is at every time where the two-body problem puts it, for every eccentricity below one, inclination, node, perigee and anomaly; energy, angular momentum and the shape of the orbit are kept, and dividing or interrupting the propagation makes no difference. Elements worked out from position and velocity are those of the orbit. Positions and velocities in the Earth-fixed, local vertical and body frames go with the inertial ones.",
  over=["inputs", "histories"], qtext="all orbits, ways to give them, propagators, attitudes and divisions of time",
  why=TESTS + "No test propagates an orbit: quadrants of the angles, the solution of Kepler's equation far from a circle and the bookkeeping of time show only over many orbits.",
  files=["src/dynamics/orbit/rk4_orbit_propagation.cpp", "src/dynamics/orbit/kepler_orbit_propagation.cpp", "src/dynamics/orbit/encke_orbit_propagation.cpp", "src/dynamics/orbit/initialize_orbit.cpp", "src/dynamics/orbit/orbit.cpp", "src/math_physics/orbit/kepler_orbit.cpp", "src/math_physics/orbit/orbital_elements.cpp"],
  mech=[("two-body motion", "KeplerOrbit::CalcOrbit, SolveKeplerNewtonMethod"), ("elements", "OrbitalElements::CalcOeFromPosVel"), ("integration", "Rk4OrbitPropagation::Propagate, EnckeOrbitPropagation::Propagate"), ("frames", "Orbit::TransformEciToEcef, CalcQuaternion_i2lvlh, UpdateByAttitude"), ("settings", "InitOrbit, InitializePosVel")],
  observe=["position and velocity in every frame after each propagation, elements worked out from position and velocity"],
  note="The specification solves Kepler's equation itself (positions to 4e-4 of the semi-major axis, constants of motion to about 5e-6). Integrated orbits up to eccentricity 0.45, analytic ones up to 0.9 (there to 4e-3 near perigee, constants of motion as elsewhere). Every bounded sequence over a few orbits, and random ones.",
  parts=[dict(_OB, ops=["reset", "go", "att"], groups=[mc(({"Fam": 1, "Deep": 2}, {"Fam": 1, "Deep": 3}), tag="two", limit=(1500, 15000)), gen("random", _or_two)])])
prop("C50", title="Accelerations and forces move the spacecraft as they must",
  statement="Every step of the integrated and the reference-orbit propagator obeys the equation of motion: gravity of the centre plus all accelerations and forces applied, each divided by the mass and turned from the body where given there. A constant acceleration changes the energy by exactly its work; without acceleration energy, momentum and shape of the orbit stay as they are, whenever the reference orbit is renewed.",
  over=["inputs", "histories"], qtext="all orbits, accelerations, forces, masses, attitudes and tolerances of the reference orbit",
  why=TESTS + "No test applies a force to an orbit; the reference orbit is renewed only after a history of disturbances.",
  files=["src/dynamics/orbit/rk4_orbit_propagation.cpp", "src/dynamics/orbit/encke_orbit_propagation.cpp", "src/dynamics/orbit/orbit.hpp"],
  mech=[("equation of motion", "Rk4OrbitPropagation::DerivativeFunction, EnckeOrbitPropagation::DerivativeFunction"), ("renewal of the reference orbit", "EnckeOrbitPropagation::Propagate, Initialize"), ("forces", "Orbit::AddForce_i_N, AddForce_b_N, AddAcceleration_i_m_s2")],
  observe=["position, velocity, energy, angular momentum, eccentricity vector after each propagation"],
  note="Steps up to 0.02 rad of the orbit judged by the equation of motion (velocity to 2.5e-5), longer ones by the conservation laws. Eccentricity at the start up to 0.2; with a reference orbit and disturbances, updates no longer than 0.02 rad of the orbit and a tolerance up to 1e-4. Every bounded sequence over a few values, and random ones.",
  parts=[dict(_OB, ops=["go"], groups=[mc(({"Fam": 2, "Deep": 3}, {"Fam": 2, "Deep": 4}), tag="push", limit=(1500, 15000)), gen("random", _or_push)])])

def _rl_state(rng):
    while True:
        p = [rng.randint(-14, 14) for _ in range(3)]; v = [rng.randint(-7, 7) for _ in range(3)]
        n = [p[1] * v[2] - p[2] * v[1], p[2] * v[0] - p[0] * v[2], p[0] * v[1] - p[1] * v[0]]
        if sum(x * x for x in p) >= 64 and sum(abs(x) for x in n) > 20: return {"p": p, "v": v, "q": _lk_quat(rng)}
def _rl_gen(R, tier, rng):
    hs = []
    for _ in range(200 if tier == "quick" else 5000):
        N = rng.choice([2, 3, 4]); h = [{"op": "reset", "hill": False, "sp": [_rl_state(rng) for _ in range(N)]}]; ids = set()
        order = list(range(N)); rng.shuffle(order)
        for i in order[:rng.randint(1, N)]: ids.add(i); h.append({"op": "reg", "id": i})
        for _ in range(rng.randint(2, 10)):
            x = rng.random()
            if x < .15 and ids: i = rng.choice(sorted(ids)); ids.discard(i); h.append({"op": "rem", "id": i})
            elif x < .35 and len(ids) < N: i = rng.choice([j for j in range(N) if j not in ids]); ids.add(i); h.append({"op": "reg", "id": i})
            elif x < .6: h.append({"op": "put", "id": rng.randrange(N), **_rl_state(rng)})
            else: h.append({"op": "upd"})
        if len(ids) < 2:
            for i in range(2):
                if i not in ids: ids.add(i); h.append({"op": "reg", "id": i})
        h.append({"op": "upd"})
        hs.append(h)
    return hs
def _hl_gen(R, tier, rng):
    hs = []
    for _ in range(200 if tier == "quick" else 5000):
        P = rng.choice([6000, 7200, 9000, 18000, 86400]); z = lambda k: [rng.choice([0, rng.randint(-k, k)]) for _ in range(3)]
        h = [{"op": "reset", "hill": True, "how": rng.choice(["rk4", "stm"]), "P": P, "i": rng.choice([0, 90, rng.randint(1, 179), rng.randint(1, 179)]), "o": rng.randint(0, 359), "u": rng.randint(0, 359), "x": z(400), "v": z(400), "step": 20}]
        left = rng.choice([400, 400, 1800])
        for _ in range(rng.randint(1, 6)):
            k, nn = rng.choice([(1, 1), (2, 10), (1, 30), (10, 2), (20, 3), (5, 20), (30, 20), (60, 10), (200, 1)])
            if k * nn <= left: left -= k * nn; h.append({"op": "go", "dt": P // 600 * 1000 * k, "n": nn})
        h.append({"op": "go", "dt": P // 600 * 1000, "n": 1}); hs.append(h)
    return hs
_RL = dict(module="Relative", driver="relative")
prop("C39", title="Spacecraft see each other where they are",
  statement="For every pair of registered spacecraft the relative position, velocity, distance and attitude are the differences of what each one is, in the inertial frame and in the radial, along-track and normal frame of the one that looks, where the velocity is that in the turning frame. They stay right when spacecraft leave and join in any order; the log names and gives each pair once.",
  over=["inputs", "histories"], qtext="all sets of spacecraft joining and leaving, with all positions, velocities and attitudes",
  why=TESTS + "No test has more than one spacecraft; order of arguments and frames show only with different states, and bookkeeping only after some have left.",
  files=["src/simulation/multiple_spacecraft/relative_information.cpp", "src/simulation/multiple_spacecraft/relative_information.hpp", "src/dynamics/orbit/orbit.cpp"],
  mech=[("relative values", "RelativeInformation::Update, CalcRelativePosition_rtn_m, CalcRelativeVelocity_rtn_m_s, CalcRelativeAttitudeQuaternion"), ("membership", "RegisterDynamicsInfo, RemoveDynamicsInfo, ResizeLists"), ("log", "GetLogHeader, GetLogValue")],
  observe=["all relative values of all registered pairs after each update, log columns and values"],
  note="Every bounded sequence of joining, leaving, moving and updating with three spacecraft, and random ones with up to four. Components in the rotating frame to about 0.2 percent.",
  parts=[dict(_RL, ops=["upd"], groups=[mc(({"Fam": 1, "Deep": 4}, {"Fam": 1, "Deep": 6}), tag="info", limit=(1500, 20000)), gen("random", _rl_gen)])])
prop("C51", title="Formation flight follows Hill's equations",
  statement="A spacecraft propagated relative to another one on a circular orbit is at every time where the solution of Hill's equations puts it in the radial, along-track and normal frame, by integration and by transition matrix alike, however time is divided. Its inertial position and velocity are those of the reference plus the relative ones turned into the inertial frame, the turning of the frame included.",
  over=["inputs", "histories"], qtext="all initial relative states, reference orbits and divisions of time",
  why=TESTS + "No test has a relative orbit; terms of the solution differ only after part of a revolution.",
  files=["src/dynamics/orbit/relative_orbit.cpp", "src/math_physics/orbit/relative_orbit_models.cpp", "src/dynamics/orbit/initialize_orbit.cpp"],
  mech=[("Hill's equations", "CalcHillSystemMatrix, CalcHcwStm"), ("propagation", "RelativeOrbit::Propagate, PropagateRk4, PropagateStm"), ("inertial state", "RelativeOrbit::InitializeState, Propagate"), ("settings", "InitOrbit")],
  observe=["inertial relative position and velocity, relative position and velocity in the rotating frame after each propagation"],
  note="Up to two thirds of a revolution from the start, with the reference on a Kepler orbit updated first. To about 0.1 percent.",
  parts=[dict(_RL, ops=["go", "reset"], groups=[mc(({"Fam": 2, "Deep": 2}, {"Fam": 2, "Deep": 4}), tag="hill", limit=(1500, 15000)), gen("random", _hl_gen)])])
