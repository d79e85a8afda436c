import itertools as _it
_QUADS = [(0, 0, 1), (1, 2, 2), (2, 3, 6), (1, 4, 8), (4, 4, 7), (2, 6, 9), (6, 6, 7), (3, 4, 12), (2, 5, 14), (2, 10, 11), (1, 12, 12), (8, 9, 12), (1, 6, 18), (6, 10, 15), (4, 5, 20), (4, 8, 19), (4, 13, 16), (0, 3, 4), (0, 5, 12), (0, 8, 15)]
_QS = [(0, 0, 0, 1), (1, 1, 1, 1), (0, 1, 2, 2), (0, 0, 3, 4), (1, 2, 2, 4), (2, 2, 2, 2), (1, 1, 3, 5), (0, 2, 3, 6)]
_QS = [q for q in _QS if sum(x * x for x in q) in (1, 4, 9, 16, 25)]
def _signed(rng, t):
    t = list(t); rng.shuffle(t); return [x * rng.choice([1, -1]) for x in t]
def _dir(rng): return _signed(rng, rng.choice(_QUADS))
def _qt(rng): return _signed(rng, rng.choice(_QS))
def _m9(rng, lo=-4, hi=8):
    if rng.random() < .4: return [rng.choice([4, 4, 8, 2, -4]) if i % 4 == 0 else 0 for i in range(9)]
    return [rng.randint(lo, hi) for _ in range(9)]
def _reset(rng):
    p = _dir(rng)
    while p[0] == 0 and p[1] == 0: p = _dir(rng)
    return {"op": "reset", "dd": rng.choice([1, 2, 4, 8]), "pos": p, "alt": rng.choice([4, 8, 20])}
def _body(rng, near=None, exact=.2):
    b = rng.choice(["SUN", "EARTH", "MOON"]); u = _dir(rng)
    return {"op": "body", "b": b, "u": u, "d": {"SUN": lambda: rng.choice([1, 2, 3, 4, 10]), "EARTH": lambda: rng.choice([0, 1, 10, 25, 40, 65]), "MOON": lambda: rng.choice([1, 3, 4, 9])}[b]()}
def _rotm(q):
    x, y, z, w = q
    return [[w*w+x*x-y*y-z*z, 2*(x*y+w*z), 2*(x*z-w*y)], [2*(x*y-w*z), w*w-x*x+y*y-z*z, 2*(y*z+w*x)], [2*(x*z+w*y), 2*(y*z-w*x), w*w-x*x-y*y+z*z]]
def _aim(rng, D):
    """Attitude and body direction such that the body is exactly on the axis of a device (or exactly behind it)."""
    import math
    c = [d for d in D if d.get("k") in ("stt", "sun", "tel") and sum(x * x for x in d["q"]) <= 9]
    if not c: return []
    d = rng.choice(c); ax = 2 if d["k"] == "sun" else 0
    while True:
        a = _qt(rng)
        if sum(x * x for x in a) <= 9: break
    v = _rotm(d["q"])[ax]; A = _rotm(a); u = [sum(A[i][j] * v[i] for i in range(3)) for j in range(3)]
    g = math.gcd(*u)
    if sum((x // g) ** 2 for x in u) > 33 ** 2: return []
    s = rng.choice([1, 1, 1, -1]); b = _body(rng)
    if ax == 2: b["b"] = "SUN"; b["d"] = 2
    b["u"] = [s * x // g for x in u]
    return [{"op": "att", "q": a}, b, {"op": "tick"}]
def _rate(rng): return {"op": "rate", "w": [rng.choice([0, rng.randint(-60, 60)]) for _ in range(3)]}
def _sens(rng, k):
    f = k == "gyro"
    return {"op": "add", "k": k, "pre": rng.choice([0, 1, 1, 2, 3]), "q": _qt(rng), "ini": rng.random() < .5, "pp": rng.random() < .5, "s": _m9(rng), "nos": rng.random() < .25,
            "bias": [rng.choice([0, rng.randint(-20, 20) * (1 if f else 100)]) for _ in range(3)], "rc": rng.choice([20, 40, 100, -30] if f else [1000, 2500, 6000, -2000]), "rz": rng.choice([60, 41, 10, 300, -90] if f else [5000, 3000, 500, 20000, -4000])}
def _stt(rng): return {"op": "add", "k": "stt", "pre": rng.choice([0, 1, 1, 2, 3]), "q": _qt(rng), "ini": rng.random() < .5, "pp": rng.random() < .5, "delay4": rng.choice([0, 3, 4, 7, 8, 13, 20]), "int4": rng.choice([0, 4, 9, 13, 20]),
                       "sa": rng.choice([10, 30, 60, 90, 120]), "ea": rng.choice([1, 10, 30, 60, 100]), "ma": rng.choice([5, 20, 50, 100]), "rl": rng.choice([1, 2, 5])}
def _mtq(rng):
    hi = [rng.randint(0, 5) for _ in range(3)]
    return {"op": "add", "k": "mtq", "pre": rng.choice([0, 1, 1, 2, 3]), "q": _qt(rng), "ini": rng.random() < .5, "pp": rng.random() < .5, "s": _m9(rng), "hi": hi, "lo": [-rng.randint(0, 5) for _ in range(3)], "bias": [rng.choice([0, rng.randint(-4, 4)]) for _ in range(3)]}
def _sunsen(rng): return {"op": "add", "k": "sun", "pre": rng.choice([1, 1, 2, 3]), "q": _qt(rng), "ini": True, "pp": rng.random() < .5, "fov": rng.choice([20, 45, 60, 80]), "pct": rng.choice([0, 20, 50, 90])}
def _tel(rng):
    n = rng.choice([0, 1, 3, 8, 20]); ms = sorted(rng.randint(-14, 90) for _ in range(n))
    return {"op": "add", "k": "tel", "pre": 1, "q": _qt(rng), "ini": True, "pp": False, "cat": [[100 + i, m] + _dir(rng) for i, m in enumerate(ms)], "nl": rng.random() < .5, "mm": rng.choice([-20, 0, 30, 60, 95]), "stars": rng.choice([0, 1, 3, 6]),
            "sa": rng.choice([10, 40, 90]), "ea": rng.choice([10, 40, 90]), "ma": rng.choice([10, 40, 90]), "nx": rng.choice([10, 100, 640]), "ny": rng.choice([20, 60, 480]), "fx": rng.choice([10, 30, 50]), "fy": rng.choice([10, 30, 50])}
def _gnss(rng): return {"op": "add", "k": "gnss", "pre": rng.choice([1, 1, 2]), "q": _qt(rng), "ini": True, "pp": rng.random() < .5}
def _sens_random(devs, ops, nq, nt, n=(5, 30)):
    def g(R, tier, rng):
        hs = []
        for _ in range(nq if tier == "quick" else nt):
            D = devs(rng)
            h = [_reset(rng)] + D
            for _ in range(rng.randint(*n)): h += ops(rng, D)
            hs.append(h + [{"op": "tick"}])
        return hs
    return g
def _pow(rng, D):
    c = [i + 1 for i, d in enumerate(D) if d["op"] == "add" and d["pp"]]
    return [{"op": "pow", "i": rng.choice(c), "on": rng.random() < .6}] if c else []
def _op29(rng, D):
    x = rng.random()
    return [{"op": "tick"}] if x < .5 else [_rate(rng)] if x < .75 else [{"op": "att", "q": _qt(rng)}] if x < .93 else _pow(rng, D)
def _op30(rng, D):
    x = rng.random()
    if rng.random() < .1: return _aim(rng, D)
    return [{"op": "tick"}] if x < .55 else [{"op": "att", "q": _qt(rng)}] if x < .7 else [_body(rng)] if x < .9 else [{"op": "rate", "w": [rng.choice([0, rng.randint(-30, 30)]) for _ in range(3)]}] if x < .95 else _pow(rng, D)
def _dev32(rng):
    n = rng.choice([1, 1, 2, 3]); D = [_mtq(rng) for _ in range(n)]
    if rng.random() < .6:
        D = [dict(_sens(rng, "mag"), rc=20000, rz=30000)] + D
        for j in range(2, n + 2):
            if rng.random() < .8: D.append({"op": "itf", "i": 1, "j": j, "c": [[rng.randint(-100, 100) // (1, 4, 16)[k] for _ in range(9)] for k in range(rng.choice([1, 1, 2, 3]))]})
    return D
def _op32(rng, D):
    x = rng.random(); mt = [i + 1 for i, d in enumerate(D) if d.get("k") == "mtq"]
    if x < .4: return [{"op": "tick"}]
    if x < .65: return [{"op": "cmd", "i": rng.choice(mt), "m": [rng.randint(-30, 30) for _ in range(3)]}]
    if x < .75: return [{"op": "inter"}]
    if x < .82: return [{"op": "att", "q": _qt(rng)}]
    return _pow(rng, D) if x < .87 else [{"op": "tick"}, {"op": "inter"}]
def _op33(rng, D):
    x = rng.random()
    if rng.random() < .15: return _aim(rng, D)
    return [{"op": "tick"}] if x < .5 else [_body(rng)] if x < .75 else [{"op": "att", "q": _qt(rng)}] if x < .95 else _pow(rng, D)
_SE = dict(module="Sensors", driver="sensors")
def _semc(fam, q, t, lim=2500): return mc(({"Fam": fam, "Deep": q}, {"Fam": fam, "Deep": t}), tag="mc%d" % fam, limit=(lim, 20000))
prop("C29", title="Gyros and magnetometers clip, scale and bias the truth in their own frame",
  statement="Without random errors a gyro or magnetometer reports the true rate or field in its own frame, multiplied by its scale matrix plus its bias. Beyond the first range the reading stays at that range, beyond the second it is zero, per axis and with the sign kept. A sensor without power, or between its runs, keeps its last reading.",
  over=["inputs", "histories"], qtext="all rates, fields, attitudes, mountings, scale matrices, biases and ranges",
  why=TESTS + "Only a few of the sensor's inputs lie at its range edges; the effects combine per axis.",
  files=["src/components/base/sensor.hpp", "src/components/base/sensor_template_functions.hpp", "src/components/real/aocs/gyro_sensor.cpp", "src/components/real/aocs/magnetometer.cpp"],
  mech=[("measurement", "Sensor::Measure"), ("saturation", "Sensor::Clip"), ("range check", "Sensor::RangeCheck"), ("settings", "ReadSensorInformation"), ("runs", "GyroSensor::MainRoutine, Magnetometer::MainRoutine")],
  observe=["measured angular velocity, measured magnetic field after each step"],
  note="Every bounded sequence over rates and attitudes around the range edges; random sensors, made by constructor and by settings file, with and without power port. The truth of the magnetic field itself is taken from the environment.",
  parts=[dict(_SE, ops=["add", "rate", "att", "pow", "tick"], groups=[_semc(1, 5, 7), gen("random", _sens_random(lambda rng: [_sens(rng, rng.choice(["gyro", "mag"])) for _ in range(rng.choice([1, 2, 3]))], _op29, 150, 3000))])])
prop("C30", title="A star sensor reports past attitudes, and errors near bright bodies",
  statement="A star sensor without random errors reports the attitude of its frame of exactly the configured delay ago, renewed once per output interval, and its initial value while it has no such sample. Its error flag is set exactly when the Sun, Moon or Earth (with the Earth's apparent radius) lies within the exclusion angle of the boresight, including straight ahead, or when the angular rate exceeds its limit.",
  over=["inputs", "histories"], qtext="all attitude histories, delays, intervals, body directions and rates",
  why=TESTS + "Delay and interval act over the attitude history.",
  files=["src/components/real/aocs/star_sensor.cpp"],
  mech=[("delay", "StarSensor::Measure, update, Initialize"), ("exclusion", "StarSensor::AllJudgement, SunJudgement, EarthJudgement, MoonJudgement"), ("rate", "StarSensor::CaptureRateJudgement")],
  observe=["measured quaternion, error flag after each step"],
  note="Every bounded sequence over attitudes, delays and intervals; random longer ones. Directions closer than 0.01 deg or so to an exclusion edge are not judged.",
  parts=[dict(_SE, ops=["add", "att", "body", "rate", "tick"], groups=[_semc(2, 8, 11), _semc(5, 5, 6), gen("random", _sens_random(lambda rng: [_stt(rng) for _ in range(rng.choice([1, 2]))], _op30, 150, 3000, (8, 50)))])])
prop("C32", title="A magnetorquer's output is its limited command plus bias, at every run",
  statement="At every run a magnetorquer without random errors outputs its command, limited per axis, plus bias, times its scale matrix; the same command gives the same output at every run. Its torque is the output in the body frame crossed with the magnetic field, and vanishes without power. The disturbance a magnetometer sees is the sum, over its interfering magnetorquers, of the configured polynomial of their output, and is replaced rather than accumulated at every update.",
  over=["inputs", "histories"], qtext="all commands, power changes, mountings, limits and interference polynomials",
  why=TESTS + "Accumulation appears only over several runs, and cross-talk only with several devices.",
  files=["src/components/real/aocs/magnetorquer.cpp", "src/components/real/aocs/mtq_magnetometer_interference.cpp"],
  mech=[("output", "Magnetorquer::CalcOutputTorque"), ("power loss", "Magnetorquer::PowerOffRoutine"), ("interference", "MtqMagnetometerInterference::UpdateInterference")],
  observe=["moment in component and body frame, torque, magnetometer reading"],
  note="Every bounded sequence of commands, power changes and runs; interference with polynomials up to degree 3 and several torquers per magnetometer.",
  parts=[dict(_SE, ops=["add", "cmd", "itf", "inter", "pow", "tick"], groups=[_semc(3, 6, 8), _semc(4, 8, 9), gen("random", _sens_random(_dev32, _op32, 200, 4000, (6, 40)))])])
prop("C33", title="Sun sensors, telescopes and GNSS antennas see exactly what is in view",
  statement="A sun sensor detects the Sun exactly when it is bright enough and within the field of view, and then reports its direction. A telescope places the Sun, Earth, Moon and the brightest catalogue stars within the magnitude limit at the pixel position of their direction when in its field of view and marks them absent otherwise, and flags the forbidden angles. A simple GNSS antenna on the side away from the Earth reports the true position, and on the other side keeps the last one.",
  over=["inputs", "histories"], qtext="all attitudes, body directions, catalogues and fields of view",
  why=TESTS + "The edge and straight-ahead cases are not sampled.",
  files=["src/components/real/aocs/sun_sensor.cpp", "src/components/real/mission/telescope.cpp", "src/components/real/aocs/gnss_receiver.cpp", "src/environment/global/hipparcos_catalogue.cpp"],
  mech=[("detection", "SunSensor::SunDetectionJudgement"), ("image", "Telescope::Observe, ObserveStars"), ("forbidden angles", "Telescope::JudgeForbiddenAngle"), ("antenna", "GnssReceiver::CheckAntennaSimple"), ("catalogue", "HipparcosCatalogue::ReadContents")],
  observe=["detection flag and direction; pixel positions and star list; visibility and position"],
  note="Bounded and random sequences of attitudes and body directions. Directions within about 0.01 deg of an edge are not judged. The sun sensor's brightness is the one of its previous run.",
  parts=[dict(_SE, ops=["add", "att", "body", "tick"], groups=[_semc(6, 4, 5), gen("random", _sens_random(lambda rng: [rng.choice([_sunsen, _tel, _gnss])(rng) for _ in range(rng.choice([1, 2, 3]))], _op33, 200, 4000))])])
