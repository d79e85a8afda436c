_CANT = {1: [3, 8], 4: [5], 9: [7, 16], 3: [9], 2: [6], 8: [10]}   # (I + J) / I is a square
def _at_reset(rng, can=False, I=None):
    I = I or [rng.randint(1, 6) for _ in range(3)]
    if can: I = [rng.choice([1, 4, 9, 3, 2]) for _ in range(3)]
    return {"op": "reset", "can": can, "ini": rng.random() < .5, "q": _qt(rng), "att": _lk_quat(rng), "I": I, "J": [rng.choice(_CANT[i]) for i in I] if can else [1, 1, 1], "kf": rng.choice([30, 60, 90]), "ze": rng.choice([0, 0, 5, 20, 50]) if can else 0,
            "step": rng.choice([10, 20, 25, 50]), "w": [0, 0, 0], "T": [0, 0, 0]}
def _ax(a, v): return [v if i == a else 0 for i in range(3)]
def _at_planar(R, tier, rng):
    hs = []
    for _ in range(150 if tier == "quick" else 4000):
        r = _at_reset(rng); a = rng.randrange(3); h = [r]; pend = False
        if rng.random() < .5: r["w"] = _ax(a, rng.randint(-20000, 20000))
        if rng.random() < .3: r["T"] = _ax(a, rng.randint(-3000, 3000))
        for _ in range(rng.randint(3, 12)):
            x = rng.random()
            if x < .1: h.append({"op": "spin", "w": _ax(a, rng.randint(-15000, 15000))})
            elif x < .3: h.append({"op": "torque", "T": _ax(a, rng.choice([0, rng.randint(-4000, 4000)]))})
            elif x < .4: h.append({"op": "wheel", "h": _ax(a, rng.randint(-50000, 50000))})
            elif x < .5: h.append({"op": "mass", "I": [rng.randint(2, 6) for _ in range(3)]}); pend = True
            elif x < .55: h.append({"op": "turn", "q": _lk_quat(rng)})
            elif x < .62 and not pend: h.append({"op": "again"})
            elif x < .68 and not pend:   # everything stops, and another axis
                a = rng.randrange(3); h += [{"op": "spin", "w": [0, 0, 0]}, {"op": "torque", "T": [0, 0, 0]}, {"op": "wheel", "h": [0, 0, 0]}, {"op": "spin", "w": _ax(a, rng.randint(-15000, 15000))}]
            else: h.append({"op": "go", "dt": rng.choice([20, 500, 1000, 2000, 3010]), "n": 1 if pend else rng.choice([1, 2, 5])}); pend = False
        h.append({"op": "go", "dt": 1000, "n": 1})
        hs.append(h)
    return hs
def _at_free(R, tier, rng):
    hs = []
    for _ in range(150 if tier == "quick" else 4000):
        a = rng.randrange(3); A = rng.randint(1, 5); C = rng.randint(1, 5); sym = rng.random() < .6
        r = _at_reset(rng, I=[C if i == a else A for i in range(3)] if sym else None); h = [r]
        r["w"] = [rng.randint(-12000, 12000) for _ in range(3)]
        for _ in range(rng.randint(2, 9)):
            x = rng.random()
            if x < .15: h.append({"op": "spin", "w": [rng.randint(-12000, 12000) for _ in range(3)]})
            elif x < .3: h.append({"op": "wheel", "h": _ax(a, rng.randint(-30000, 30000)) if sym else [rng.randint(-30000, 30000) for _ in range(3)]})
            elif x < .36: h.append({"op": "turn", "q": _lk_quat(rng)})
            elif x < .42: h.append({"op": "again"})
            else: h.append({"op": "go", "dt": rng.choice([50, 500, 1000, 2000, 5000]), "n": rng.choice([1, 2, 5])})
        h.append({"op": "go", "dt": 1000, "n": 1})
        hs.append(h)
    return hs
def _at_forced(R, tier, rng):
    hs = []
    for _ in range(120 if tier == "quick" else 4000):
        r = _at_reset(rng); h = [r]; r["w"] = [rng.randint(-9000, 9000) for _ in range(3)]; r["T"] = [rng.randint(-5000, 5000) for _ in range(3)]
        for _ in range(rng.randint(3, 10)):
            x = rng.random()
            if x < .25: h.append({"op": "torque", "T": [rng.randint(-20000, 20000) for _ in range(3)]})
            elif x < .35: h.append({"op": "wheel", "h": [rng.randint(-30000, 30000) for _ in range(3)]})
            else: h.append({"op": "go", "dt": rng.choice([50, 200, 400]), "n": rng.choice([1, 2])})
        h.append({"op": "go", "dt": 100, "n": 1})
        hs.append(h)
    return hs
def _at_cant(R, tier, rng):
    hs = []
    for _ in range(150 if tier == "quick" else 4000):
        r = _at_reset(rng, True); a = rng.randrange(3); h = [r]; r["step"] = rng.choice([5, 10, 20])
        if r["ze"] >= 20 and rng.random() < .6:   # all the way to rest
            r["kf"] = 90; hs.append([r, {"op": "torque", "T": _ax(a, rng.randint(-1000, 1000))}, {"op": "go", "dt": 1000, "n": 1}, {"op": "go", "dt": 36000, "n": rng.choice([1, 2])}]); continue
        if rng.random() < .5: r["w"] = _ax(a, rng.randint(-9000, 9000))
        if rng.random() < .5: r["T"] = _ax(a, rng.randint(-9000, 9000))
        for _ in range(rng.randint(2, 8)):
            x = rng.random()
            if x < .1: h.append({"op": "spin", "w": _ax(a, rng.randint(-9000, 9000))})
            elif x < .35: h.append({"op": "torque", "T": _ax(a, rng.choice([0, rng.randint(-9000, 9000)]))})
            elif x < .4: h.append({"op": "wheel", "h": _ax(a, rng.randint(-30000, 30000))})
            else: h.append({"op": "go", "dt": rng.choice([20, 100, 500, 1000, 2000]), "n": rng.choice([1, 2, 5])})
        h.append({"op": "go", "dt": 1000, "n": 1})
        hs.append(h)
    return hs
_AT = dict(module="Attitude", driver="attitude")
prop("C38", title="Attitude follows the laws of rotation, however time is divided",
  statement="Under a torque about a principal axis the rate and the attitude follow exactly, with any inertia, mounting of the axes and wheel momentum about it, and a change of inertia keeps angular momentum; a symmetric body free of torque precesses as it must. In every other motion the inertial angular momentum, wheels included, changes by the torque alone, and energy is kept without torque. The quaternion stays of unit length, momentum and energy are reported as they are, dividing the time into more steps makes no difference, and no time passing changes nothing.",
  over=["inputs", "histories"], qtext="all inertias, rates, attitudes, torques, wheel momenta and divisions of time",
  why=TESTS + "No test propagates an attitude; sign and frame errors show only with products of inertia, wheels and several axes at once.",
  files=["src/dynamics/attitude/attitude_rk4.cpp", "src/dynamics/attitude/attitude.cpp", "src/dynamics/attitude/initialize_attitude.cpp"],
  mech=[("propagation", "AttitudeRk4::Propagate, AttitudeDynamicsAndKinematics"), ("momentum and energy", "Attitude::CalcAngularMomentum"), ("settings", "InitAttitude")],
  observe=["quaternion, angular velocity, angular momentum, kinetic energy after each propagation"],
  note="Closed forms about every principal axis and for symmetric bodies (rates to about 0.01 deg/s, attitude to 0.03 to 0.15 deg per propagation), conservation laws otherwise; forced general motion over short times only. Every bounded sequence of a few values, and random ones. Change of inertia is judged in motion about a principal axis.",
  parts=[dict(_AT, ops=["go", "again"], groups=[mc(({"Fam": 1, "Deep": 3}, {"Fam": 1, "Deep": 4}), tag="planar", limit=(1200, 12000), properties=("Conserve",)), mc(({"Fam": 2, "Deep": 3}, {"Fam": 2, "Deep": 4}), tag="top", limit=(1200, 12000), properties=("Conserve",)), gen("axis", _at_planar), gen("free", _at_free), gen("forced", _at_forced)])])
prop("C49", title="A cantilever vibrates, and shares momentum with the body that carries it",
  statement="With a flexible structure, torque about a principal axis changes the momentum of body and structure together at exactly its rate, whatever the damping. Undamped, the structure swings about its static deflection with the frequency given by its stiffness and both inertias; damped, it comes to rest there. Without torque or vibration the body turns as a rigid one.",
  over=["inputs", "histories"], qtext="all inertias, stiffnesses, dampings, torques and divisions of time, about principal axes",
  why=TESTS + "No test has a flexible structure; the coupling of both motions is a matter of the whole history.",
  files=["src/dynamics/attitude/attitude_with_cantilever_vibration.cpp", "src/dynamics/attitude/ode_attitude_with_cantilever_vibration.hpp", "src/math_physics/numerical_integration/runge_kutta.hpp"],
  mech=[("equations of motion", "AttitudeWithCantileverVibrationOde::DerivativeFunction"), ("propagation", "AttitudeWithCantileverVibration::Propagate"), ("settings", "InitAttitude")],
  observe=["quaternion, angular velocity, deflection and its rate after each propagation"],
  note="Motion about principal axes common to body and structure; the general coupled motion is not judged. Every bounded sequence of a few values, and random ones.",
  parts=[dict(_AT, ops=["go"], groups=[mc(({"Fam": 3, "Deep": 4}, {"Fam": 3, "Deep": 5}), tag="cant", limit=(1200, 12000), properties=("ConserveC",)), gen("random", _at_cant)])])
_PM = ["SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"]
_BD = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 2, 2), (0, 3, 4), (2, 3, 6), (2, 1, 0), (1, 1, 1), (1, 1, 0)]
def _pt_world(rng, last=None):
    while True:
        if last and rng.random() < .7:   # a small move
            s, p, v = ([x + rng.randint(-1, 1) * k for x in last[n]] for n, k in (("sun", 15), ("p", 1), ("v", 1)))
        else: s = [rng.randint(-200, 200) for _ in range(3)]; p = [rng.randint(-12, 12) for _ in range(3)]; v = [rng.randint(-7, 7) for _ in range(3)]
        n = [p[1] * v[2] - p[2] * v[1], p[2] * v[0] - p[0] * v[2], p[0] * v[1] - p[1] * v[0]]
        if sum(x * x for x in p) >= 64 and sum(x * x for x in v) >= 9 and sum(abs(x) for x in n) > 15 and sum(x * x for x in s) > 900 and max(map(abs, p)) < 15 and max(map(abs, v)) < 9 and max(map(abs, s)) < 300: return {"sun": s, "p": p, "v": v}
def _pt_dirs(rng, ok=True):
    while True:
        a, b = _signed(rng, rng.choice(_BD)), _signed(rng, rng.choice(_BD)); d = sum(x * y for x, y in zip(a, b)); l, r = 4 * d * d, 3 * sum(x * x for x in a) * sum(x * x for x in b)
        if l < r or (not ok and l != r): return {"bm": a, "bs": b}
def _pt_gen(R, tier, rng):
    hs = []
    for _ in range(300 if tier == "quick" else 8000):
        w = _pt_world(rng); how = rng.choice(["direct", "direct", "ini", "both", "init"]); m = rng.choice(_PM); s = rng.choice([x for x in _PM if x != m]); x = rng.random()
        if x < .05: m = "INERTIAL_STABILIZE"
        elif x < .08: m = rng.choice(["NO_CONTROL", "POINT"])
        elif x < .11: s = "NO_CONTROL"
        elif x < .15: s = m
        d = _pt_dirs(rng, rng.random() < .9)
        h = [{"op": "reset", "how": how, "main": m, "sub": s, **d, "q0": _lk_quat(rng), "lat": rng.choice([0, 0, 90, -90]), "lon": rng.choice([0, 90, 35, -120, 200]), "alt": rng.choice([0, 0, 300, 900]), "rot": rng.random() < .6, **w}]
        l, r = sum(p * q for p, q in zip(d["bm"], d["bs"])) ** 2 * 4, 3 * sum(p * p for p in d["bm"]) * sum(p * p for p in d["bs"])
        on = m in _PM + ["INERTIAL_STABILIZE"] and s in _PM and (m not in _PM or (m != s and l < r))
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < .35: w = _pt_world(rng, w); h.append({"op": "move", **w})
            elif x < .5: h.append({"op": "see"})
            elif x < .55 and on and how != "init":
                m = rng.choice(_PM); h.append({"op": "mode", "main": m, "sub": rng.choice([y for y in _PM if y != m])})
            elif x < .6 and on and how != "init": h.append({"op": "aim", **_pt_dirs(rng)})
            else: h.append({"op": "prop", "dt": rng.choice([100, 1000, 10000])})
        h.append({"op": "prop", "dt": 1000})
        hs.append(h)
    return hs
prop("C48", title="Controlled attitude points where it is told to",
  statement="With a pointing mode the main body direction points exactly at the main target (sun, earth centre, velocity, velocity over ground, orbit normal, or a position on the turning Earth with its altitude), and the second body direction lies as close to the second target as the main one allows; the same holds where it only sets the initial attitude. The angular velocity is the one that leads from the previous attitude to the present one. The same mode twice, an unknown mode, or body directions closer than 30 degrees leave the attitude as it was, as does inertial stabilization.",
  over=["inputs", "histories"], qtext="all pairs of modes, body directions, orbits, sun positions and changes of mode and direction",
  why=TESTS + "No test has a controlled attitude; signs of the rate and frames of the targets show only in particular attitudes.",
  files=["src/dynamics/attitude/controlled_attitude.cpp", "src/dynamics/attitude/controlled_attitude.hpp", "src/dynamics/attitude/initialize_attitude.cpp"],
  mech=[("targets", "ControlledAttitude::CalcTargetDirection_i"), ("attitude", "ControlledAttitude::PointingControl, CalcDcm"), ("rate", "ControlledAttitude::CalcAngularVelocity"), ("settings", "ControlledAttitude::Initialize, InitAttitude")],
  observe=["quaternion and angular velocity after each propagation"],
  note="All pairs of modes over a few geometries (bounded exhaustive), random geometries and histories with small moves. Attitude to about 0.05 deg; rates to the difference of chord and angle (steps up to 60 deg). Two targets (nearly) in the same direction and body directions exactly 30 degrees apart are not judged; the surface target is on the equator or at a pole. The torque reported in this mode is not judged.",
  parts=[dict(module="Pointing", driver="pointing", ops=["prop", "reset"], groups=[mc(({"Deep": 2}, {"Deep": 3}), limit=(1500, 15000)), gen("random", _pt_gen)])])
