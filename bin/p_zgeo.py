def _triple(rng):
    m = rng.randint(2, 14); n = rng.randint(1, m - 1); return [2 * m * n, m * m - n * n, m * m + n * n]
def _angle(rng, lat):
    x = rng.random()
    if x < .2: t = rng.choice([[0, 1, 1], [1, 0, 1], [-1, 0, 1]] + ([] if lat else [[0, -1, 1]]))
    else:
        t = _triple(rng)
        if rng.random() < .5: t = [t[1], t[0], t[2]]
        t = [t[0] * rng.choice([1, -1]), t[1] * (1 if lat else rng.choice([1, -1])), t[2]]
    return t
def _geo_gen(R, tier, rng):
    hs = []
    for _ in range(300 if tier == "quick" else 8000):
        h = [{"op": "reset"}]
        for _ in range(rng.randint(2, 12)):
            x = rng.random()
            if x < .45: h.append({"op": "set", "la": _angle(rng, True), "lo": _angle(rng, False), "h": rng.choice([0, rng.randint(-8000, 9000), rng.randint(0, 2000000), rng.randint(0, 40000000)]), "turns": rng.choice([0, 0, 0, 1, -1, 2])})
            elif x < .7: h.append({"op": "self"})
            else:
                v = [rng.gauss(0, 1) if rng.random() < .8 else 0.0 for _ in range(3)]
                n = sum(c * c for c in v) ** .5 or 1; v = v if n != 1 else [0, 0, 1]; n = sum(c * c for c in v) ** .5
                d = rng.choice([6380000, 6800000, 42000000, rng.randint(6380000, 46000000)])
                if rng.random() < .2: v = [rng.choice([0, 0, 1e-7, 1e-5]) * n, rng.choice([0, 1e-7]) * n, rng.choice([1, -1]) * n]
                h.append({"op": "ecef", "p": [round(d * c / n) for c in v]})
        hs.append(h)
    return hs
prop("C46", title="Geodetic and earth-fixed positions convert into each other exactly",
  statement="Latitude, longitude and height above the ellipsoid and the earth-fixed position describe the same point whichever of them was given, at the poles, on the equator and at any height, and converting there and back changes nothing. Latitudes stay within plus and minus ninety degrees. The local frame has its first axis to the east, its second to the north and its third along the vertical.",
  over=["inputs"], qtext="all positions from below ground to geostationary height",
  why=TESTS + "No test converts a geodetic position; poles, the date line and the equator are special.",
  files=["src/math_physics/geodesy/geodetic_position.cpp"],
  mech=[("to earth-fixed", "GeodeticPosition::CalcEcefPosition"), ("from earth-fixed", "GeodeticPosition::UpdateFromEcef"), ("frame", "GeodeticPosition::CalcQuaternionXcxfToLtc")],
  observe=["latitude, longitude, altitude, earth-fixed position, local frame"],
  note="A grid of exact angles and heights (bounded exhaustive) and random positions. The earth-fixed position is judged against the ellipsoid to about 20 m, there and back to 2 mm. At a pole the longitude that comes back is not judged.",
  parts=[dict(module="Geo", driver="geo", ops=["set", "ecef", "self"], groups=[mc(({"Deep": 1}, {"Deep": 2}), limit=(1500, 20000)), gen("random", _geo_gen)])])
