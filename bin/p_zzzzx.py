# Ideal components (C54)
def _id_gen(R, tier, rng):
    hs = []
    def pose():
        while True:
            t = _dir(rng); n = round(sum(x * x for x in t) ** .5)
            if n <= 9: break
        # a frame from a quaternion
        q = _qt(rng); m = _rotm(q)
        return {"op": "pose", "q": _qt(rng), "ra": m[0], "rb": m[1], "rc": m[2], "x": rng.randint(6800, 40000), "vr": rng.choice([0, rng.randint(-900, 900)]), "vt": rng.randint(900, 8000), "w": [rng.choice([0, rng.randint(-600, 600)]) for _ in range(3)]}
    for i in range(120 if tier == "quick" else 1500):
        n = rng.random() < .5; z = lambda a: a if n and rng.random() < .8 else 0
        h = [{"op": "reset", "ini": rng.random() < .6, "ms": z(rng.choice([20, 100, 300])), "ds": z(rng.choice([100, 1000, 3000])), "mt": z(rng.choice([20, 100, 300])), "dt": z(rng.choice([100, 1000, 3000])),
              "ns": [z(rng.choice([1, 50, 900])) for _ in range(6)], "fr": rng.choice(["INERTIAL", "RTN", "RTN", "rtn"]), "as": z(rng.choice([50, 500, 2000])), "bias": [rng.choice([0, rng.randint(-50, 50)]) for _ in range(3)], "rc": rng.choice([100, 300, 2000]), "rz": rng.choice([400, 3000])}]
        h.append(pose()); p = h[-1]; c = h[0]
        for _ in range(rng.randint(4, 12)):
            x = rng.random(); v = [rng.choice([0, rng.randint(-9, 9), rng.randint(-90, 90)]) for _ in range(3)]
            if x < .2: h.append({"op": "force", "f": rng.choice(["b", "i", "rtn"]), "v": v})
            elif x < .3: h.append({"op": "torque", "v": v})
            elif x < .45: h.append(pose()); p = h[-1]
            elif x < .7: h.append({"op": "run"})
            elif x < .75: h += [{"op": "off"}]
            elif x < .95 or i % 8: h.append({"op": "see"})
            else:
                ks = [k for k, f in (("force", ["ms", "ds"]), ("torque", ["mt", "dt"]), ("att", ["as"])) if all(c[y] for y in f)] + (["orbit"] if all(c["ns"]) else [])
                if ks: h.append({"op": "stats", "of": rng.choice(ks), "n": 2000, "ra": p["ra"], "rb": p["rb"], "rc": p["rc"], "k": rng.choice([10, 40])})
        h.append({"op": rng.choice(["run", "see"])}); hs.append(h)
    for fr in ("RTN", "INERTIAL"):
        for ini in (True, False):
            c = {"op": "reset", "ini": ini, "ms": 200, "ds": 2000, "mt": 100, "dt": 3000, "ns": [1, 20, 300, 4000, 50, 6], "fr": fr, "as": 1000, "bias": [0, 0, 0], "rc": 1000, "rz": 2000}
            p = pose(); h = [c, p] + [{"op": "stats", "of": k, "n": 4000, "ra": p["ra"], "rb": p["rb"], "rc": p["rc"], "k": 30} for k in ("force", "torque", "orbit", "att")] + [{"op": "two"}, {"op": "run"}, {"op": "see"}]
            hs.append(h)
    return hs
prop("C54", title="Ideal components give what is ordered and see the truth, plus the error asked for",
  statement="Ideal generators deliver the ordered force or torque, expressed consistently in every frame, and nothing when nothing is ordered or power is off; ideal observers report the true orbit, attitude and rate. Errors added to them have the standard deviation asked for, in the frame asked for, without preferred direction, and differ from one component to the next.",
  over=["inputs", "histories"], qtext="all orders, frames, attitudes and orbits, and error settings",
  why=TESTS + "No test constructs them; control algorithms are tuned on them, so errors must be exactly as large as they are set.",
  files=["src/components/ideal/force_generator.cpp", "src/components/ideal/torque_generator.cpp", "src/components/ideal/orbit_observer.cpp", "src/components/ideal/attitude_observer.cpp", "src/components/ideal/angular_velocity_observer.cpp"],
  mech=[("order and frames", "ForceGenerator, TorqueGenerator"), ("errors of magnitude and direction", "GenerateDirectionNoiseQuaternion"), ("truth plus error", "OrbitObserver, AttitudeObserver, AngularVelocityObserver")],
  observe=["generated force and torque", "observed orbit, attitude and rate", "log values"],
  note="Errors are judged by mean, variance and correlation of thousands of samples, within six standard deviations; direction errors up to 3 degrees. The rate observer's noise is decided with the sensors.",
  parts=[dict(module="Ideal", driver="ideal", groups=[mc(({"Deep": 5}, {"Deep": 7}), tag="frames", limit=(1500, 20000)), gen("random", _id_gen)])])
