# Fields (C52, C53)
def _fi_base(**k):
    b = {"op": "reset", "kind": "earth", "cs": [], "deg": 4, "on": True, "ini": False, "file": True, "sd": 0, "two": False, "model": "NONE", "f": 150, "fa": 120, "ap": 3}; b.update(k); return b
def _fi_pos(rng, lo=1000, hi=4500):
    while True:
        p = [rng.choice([0, rng.randint(-hi, hi), rng.randint(-hi, hi)]) for _ in range(3)]
        if lo * lo <= sum(x * x for x in p) <= hi * hi: return p
def _fi_grav(R, tier, rng):
    hs = []
    for _ in range(150 if tier == "quick" else 4000):
        kind = rng.choice(["earth", "moon"]); cs = {}
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            n = rng.randint(2 if kind == "earth" else 1, 6); m = rng.randint(0, n); cs[n, m] = [n, m, rng.choice([0, rng.randint(-1000, 1000)]), 0 if m == 0 else rng.choice([0, rng.randint(-1000, 1000)])]
        x = rng.random(); on = rng.random() < .95
        h = [_fi_base(kind=kind, cs=list(cs.values()), deg=rng.choice([6, 6, 5, 4, 3, 2, 1, 0, -1]) if x > .04 else rng.choice([400, 1300, 6]), on=on, ini=rng.random() < .5, file=x > .04)]
        for _ in range(rng.randint(1, 5)):
            if kind == "moon" and rng.random() < .4: h.append({"op": "body", "b": "MOON", "s": [rng.randint(-300000, 300000) for _ in range(2)] + [rng.randint(50000, 200000)] + [rng.randint(-900, 900), rng.randint(300, 900), rng.randint(-900, 900)]})
            elif rng.random() < .3: h.append({"op": "grad", "p": _fi_pos(rng)})
            else: h.append({"op": "at", "p": _fi_pos(rng), "q": _lk_quat(rng)})
        h.append({"op": "at", "p": _fi_pos(rng, 1000, 1800), "q": _lk_quat(rng)}); hs.append(h)
    return hs
def _fi_mag(R, tier, rng):
    hs = []
    for _ in range(100 if tier == "quick" else 3000):
        h = [_fi_base(kind="mag", on=rng.random() < .95, ini=rng.random() < .5, two=rng.random() < .4, sd=rng.choice([0, 30000]))]
        x = {"lat": rng.randint(-89, 89), "lon": rng.randint(-180, 180), "alt": rng.choice([0, 400, 2000, rng.randint(0, 6000)]), "yr": rng.randint(20100, 20400), "g": rng.randint(0, 360), "q": _lk_quat(rng)}
        for _ in range(rng.randint(2, 8)):
            k = rng.choice(["lat", "lon", "alt", "yr", "g", "q", "all"])   # one thing changes at a time
            n = {"lat": rng.choice([rng.randint(-89, 89), rng.randint(78, 89), rng.randint(-89, -78)]), "lon": rng.randint(-180, 180), "alt": rng.choice([0, 400, 2000, rng.randint(0, 6000)]), "yr": rng.randint(20100, 20400), "g": rng.randint(0, 360), "q": _lk_quat(rng)}
            x = dict(n) if k == "all" else {**x, k: n[k]}
            h.append({"op": "at", "w": 1 if rng.random() < .3 else 0, **x})
        h.append({"op": "at", "w": 0, **x}); hs.append(h)
    return hs
def _fi_air(R, tier, rng):
    hs = []
    def p():
        while True:
            x = [rng.randint(-7400, 7400) for _ in range(3)]
            if rng.random() < .2: x[rng.randrange(3)] = 0
            if 6440 ** 2 <= sum(y * y for y in x) <= 7600 ** 2: return x
    s = lambda: [rng.randint(-100, 100) * 1000000 for _ in range(2)] + [rng.randint(-60, 60) * 1000000]
    edges = [0, 80, 90, 100, 110, 120, 150, 180, 200, 250, 300, 400, 450, 500, 600, 700, 800, 840, 900, 960, 1000]
    for _ in range(120 if tier == "quick" else 3000):
        model = rng.choice(["STANDARD", "HARRIS_PRIESTER", "HARRIS_PRIESTER", "NRLMSISE00", "NONE"])
        h = [_fi_base(kind="air", on=rng.random() < .95, ini=rng.random() < .5, model=model, f=rng.choice([40, 49, 50, 51, 120, 200]), fa=rng.choice([40, 49, 50, 51, 130, 210]), ap=rng.randint(0, 90), sd=rng.choice([0, 0, 0, 4]))]
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < .25: y = s(); h.append({"op": "body", "b": "SUN", "s": y if any(y) else [1000000, 0, 0]})
            elif x < .65: h.append({"op": "at", "p": p(), "yr": 2024, "day": rng.randint(0, 364), "h": rng.randint(1, 23)})
            else:
                y = [rng.randint(-100, 100) for _ in range(3)]
                h.append({"op": "dens", "model": rng.choice(["STANDARD", "HARRIS_PRIESTER"]), "alt": rng.choice([10 * rng.choice(edges), 10 * rng.choice(edges) + rng.choice([-1, 1, 0]), rng.randint(0, 9999), rng.randint(0, 15000)]), "lat": rng.randint(-90, 90), "lon": rng.randint(-180, 180), "s": y if any(y) else [1, 0, 0]})
                if h[-1]["alt"] < 0: h[-1]["alt"] = 0
        h.append({"op": "at", "p": p(), "yr": 2024, "day": 10, "h": 5}); hs.append(h)
    return hs
_FI = dict(module="Fields", driver="fields")
prop("C52", title="Gravity and magnetic fields follow their coefficients everywhere",
  statement="The gravity of the Earth and the Moon beyond the centre's is at every place and for every set of normalised coefficients the gradient of the potential they describe, up to the asked degree, turned into the inertial frame with the body; its own gradient is symmetric, free of trace and its rate of change. The geomagnetic field is that of its coefficients at the date and place asked for, whatever was asked before, in the inertial and the body frame, with the noise set for that spacecraft.",
  over=["inputs", "histories"], qtext="all coefficients, degrees, places, dates and orders of asking",
  why=TESTS + "Tests compare a few places with the terms of one model; signs and normalisations of single terms, caching between calls and limits of the degree need other coefficients and histories.",
  files=["src/disturbances/geopotential.cpp", "src/disturbances/lunar_gravity_field.cpp", "src/math_physics/gravity/gravity_potential.cpp", "src/environment/local/geomagnetic_field.cpp", "src/math_physics/geomagnetic/igrf.cpp"],
  mech=[("potential", "GravityPotential::CalcAcceleration_xcxf_m_s2, CalcPartialDerivative_xcxf_s2"), ("coefficients", "Geopotential::ReadCoefficientsEgm96, LunarGravityField::ReadCoefficientsGrgm1200a"), ("frames", "Geopotential::Update, LunarGravityField::Update, GeomagneticField::CalcMagneticField"), ("magnetic field", "IgrfCalc, fcalc, mfldg, tyear")],
  observe=["accelerations in both frames, gradient, magnetic field in both frames, logged values"],
  note="Degrees up to six with random coefficients (a field of degree three for the magnetism, one coefficient file), positions up to 4.5 radii. Accelerations to about 0.2 percent of the largest possible value, the magnetic field to 100 nT of some 30000 nT. Every bounded sequence over single terms, and random ones.",
  parts=[dict(_FI, ops=["reset", "at", "grad"], groups=[mc(({"Fam": 1, "Deep": 1}, {"Fam": 1, "Deep": 2}), tag="gravity", limit=(1500, 15000)), gen("gravity", _fi_grav),
    mc(({"Fam": 2, "Deep": 3}, {"Fam": 2, "Deep": 4}), tag="magnetism", limit=(1500, 15000)), gen("magnetism", _fi_mag)])])
prop("C53", title="The density of the air is that of the chosen model",
  statement="The density of the air is at every altitude and place that of the model chosen: piecewise exponential; or between its lowest value and that in the bulge, which follows the Sun at thirty degrees; or that of the detailed model asked for the place, time of day and activity. Outside the altitudes of its table a model keeps to the table's end, and no model, or none enabled, means no air; the noise asked for is added to the density that is kept.",
  over=["inputs", "configurations"], qtext="all altitudes, places, positions of the Sun, models and parameters",
  why=TESTS + "No test asks for a density; boundaries of the layers, ends of the tables and the frame of the bulge show only at particular places.",
  files=["src/environment/local/atmosphere.cpp", "src/math_physics/atmosphere/simple_air_density_model.cpp", "src/math_physics/atmosphere/harris_priester_model.cpp", "src/math_physics/atmosphere/wrapper_nrlmsise00.cpp"],
  mech=[("choice of model", "Atmosphere::CalcAirDensity_kg_m3, InitAtmosphere"), ("layers", "CalcAirDensityWithSimpleModel"), ("bulge", "CalcAirDensityWithHarrisPriester_kg_m3"), ("detailed model", "CalcNRLMSISE00")],
  observe=["density kept and logged, arguments given to the detailed model"],
  note="Densities to about 0.5 percent (1 percent with the bulge). The detailed model itself is a stand-in that records what it is asked; only manual activity is covered. Every bounded sequence over a few values, and random ones.",
  parts=[dict(_FI, ops=["at", "dens"], groups=[mc(({"Fam": 3, "Deep": 1}, {"Fam": 3, "Deep": 2}), tag="air", limit=(1500, 15000)), gen("air", _fi_air)])])
