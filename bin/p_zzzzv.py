# Tables (C36)
def _tb_gen(R, tier, rng):
    hs = []
    v = lambda k: [rng.randint(-1000, 1000) for _ in range(k)]
    for i in range(90 if tier == "quick" else 1500):
        h = [{"op": "reset"}]
        if rng.random() < .5:
            n = rng.randint(2, 9); rows = rng.choice([n, n + 1, rng.randint(n, 24), rng.randint(2, 9)]); t = rng.choice([rng.randint(-8, 4 * rows + 4), rng.randint(0, 4 * rows - 4), rng.randint(0, 4 * rows - 4)])
            h.append({"op": "series", "rows": [v(6) for _ in range(rows)], "n": n, "m": rng.randint(0, 1), "u": rng.choice([2991027, 3000000, 2000000, 2500000]), "t": t}); big = rng.choice([1, 3, 9])
            for _ in range(rng.randint(3, 14)):
                t += rng.randint(1, 4 * big); h.append({"op": "go", "t": t})
        else:
            f = rng.randint(1, 3); s = rng.choice([1, 2, 3, 4, 5, 9, 14]); sats = rng.randint(1, 4); t = rng.choice([rng.randint(-10, 60 * f + 5), rng.randint(0, 60 * f - 1), rng.randint(0, 60 * f - 1)])
            h.append({"op": "gnss", "rows": [[v(4) for _ in range(sats)] for _ in range(15 * f)], "sats": sats, "dup": rng.random() < .4, "on": rng.random() < .92, "s": s, "t": t}); ok = h[-1]["on"] and 0 <= t < 60 * f
            for _ in range(rng.randint(3, 14)):
                h.append({"op": "step"})
                if ok and rng.random() < .4: h.append({"op": "at", "d": rng.randint(-4, 4)})
        hs.append(h)
    h = [{"op": "reset"}, {"op": "gnss", "rows": [[v(4)] for _ in range(15 * 13)], "sats": 1, "dup": True, "on": True, "s": 29, "t": 33}]; hs.append(h + [{"op": "step"}] * 25)
    hs.append([{"op": "reset"}, {"op": "gnss", "rows": [[v(4)] for _ in range(15)], "sats": 1, "dup": False, "on": True, "s": 1, "t": 20}, {"op": "step"}])
    return hs
prop("C36", title="Orbits and clocks out of tables are interpolated between the right samples",
  statement="GNSS satellites and a spacecraft whose orbit is a table have at every instant the position, velocity or clock offset that the polynomial of the chosen kind and degree through the samples around that instant gives, wherever in the data the simulation starts, however large its steps are, across files, and up to the ends of the data. Before and after its table a spacecraft stays at the first and last row. A satellite that does not exist has zeros, and running out of data does not end the simulation.",
  over=["inputs", "histories"], qtext="all tables, degrees, starting instants, step sizes and divisions into files",
  why=TESTS + "Tests interpolate one short table of a sine; no test loads files of several days, steps across samples or reaches the end of the data.",
  files=["src/environment/global/gnss_satellites.cpp", "src/dynamics/orbit/time_series_file_orbit_propagation.cpp", "src/math_physics/math/interpolation.cpp", "src/math_physics/orbit/interpolation_orbit.cpp"],
  mech=[("stream of samples", "GnssSatellites::Update, UpdateInterpolationInformation"), ("time series", "TimeSeriesFileOrbitPropagation::Propagate"), ("interpolation", "Interpolation::CalcPolynomial, CalcTrigonometric")],
  observe=["position, velocity and clock offset at each instant"],
  note="Which samples are around is left open by one sample either way. Judged in UTC as the code takes it (the files are in GPS time), with satellites in the same order in every file, and evenly spaced.",
  parts=[dict(module="Tables", driver="tables", groups=[mc(({"Deep": 3}, {"Deep": 6}), tag="tables", limit=(1500, 12000)), gen("random", _tb_gen)])])
