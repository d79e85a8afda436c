# Orbits from two-line elements (C56)
def _tl_gen(R, tier, rng):
    hs = []
    for _ in range(120 if tier == "quick" else 1200):
        def sat():
            n = rng.choice([155000, 150000, 142000, 130000, 130000, 20056, 10027])
            return {"n": n, "i": rng.randint(0, 178) * 1000 + rng.choice([0, 511]) if n > 60000 else rng.randint(1, 70) * 1000, "o": rng.randint(0, 359999), "w": rng.randint(0, 359999), "m": rng.randint(0, 359999), "e": rng.choice([0, 5, 50, 150] if n < 150000 else [0, 5, 50]),
                    "b": rng.choice([0, 0, 10000, 30000]) if n > 60000 else 0, "y": rng.choice([20, 99, 0, 5, 57, 56]), "d": rng.choice([1, 59, 60, 61, 365, rng.randint(1, 365)]), "f": rng.randint(0, 7), "t0": rng.choice([0, 0, 30, 1440, -60])}
        ss = [sat() for _ in range(rng.choice([1, 1, 2, 3]))]; h = [{"op": "reset", "s": ss, "wgs": rng.randint(0, 2), "ini": rng.random() < .4}]
        for _ in range(rng.randint(3, 9)):
            k = rng.randrange(len(ss)); x = rng.random()
            if x < .12: h.append({"op": "flag", "k": k, "on": rng.random() < .7})
            else: h.append({"op": "go", "k": k, "t": rng.choice([0, rng.randint(0, 200), rng.randint(0, 1440), rng.randint(-1440, 0), rng.randint(0, 2880)])})
        k = rng.randrange(len(ss)); h += [{"op": "flag", "k": k, "on": True}, {"op": "go", "k": k, "t": rng.randint(1, 600)}]; hs.append(h)
    for _ in range(20 if tier == "quick" else 300):   # the end of a satellite
        s = sat(); s.update(n=155000, e=rng.choice([0, 5]), b=rng.choice([50000, 99999]), i=51640, t0=0)
        hs.append([{"op": "reset", "s": [s], "wgs": 1, "ini": False}] + [{"op": "long", "k": 0, "t": t} for t in (14400, 144000, 1440000)])
    return hs
prop("C56", title="Orbits from two-line elements follow their mean motion and drift, from time alone",
  statement="A satellite given by two-line elements starts at their epoch where they say, advances with their mean motion, and its node and perigee drift as the Earth's oblateness demands, for any century, epoch and gravity setting. Its position depends on its own elements and the time only, not on where it or others were asked for before; its velocity is how its position moves, and beyond the end of its orbit its state stays a state.",
  over=["inputs", "histories"], qtext="all elements of nearly circular orbits, epochs, and orders of times",
  why=TESTS + "No test runs it; element parsing, units and epochs matter for every satellite, and stored internal state could leak between calls.",
  files=["src/dynamics/orbit/sgp4_orbit_propagation.cpp", "src/dynamics/orbit/initialize_orbit.cpp", "src/math_physics/orbit/sgp4/sgp4io.cpp", "src/math_physics/orbit/sgp4/sgp4ext.cpp", "src/math_physics/orbit/sgp4/sgp4unit.cpp"],
  mech=[("elements and epoch", "twoline2rv"), ("time since epoch and state", "Sgp4OrbitPropagation::Propagate")],
  observe=["position and velocity in both frames"],
  note="Eccentricity up to 0.015, two days around the epoch; within 35 km near the Earth and 150 km far away, as the theory has more terms than the secular ones.",
  parts=[dict(module="Tle", driver="tle", groups=[mc(({"Deep2": 2}, {"Deep2": 3}), tag="drift", limit=(1500, 6000)), gen("random", _tl_gen)])])
