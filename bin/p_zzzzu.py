# Products (C34)
def _pr_gen(R, tier, rng):
    hs = []
    cnt = {"G": 32, "R": 26, "E": 28, "C": 62, "J": 5, "I": 7}
    word = lambda n: "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(n))
    date = lambda: [rng.randint(1980, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 5999)]
    def sat(): s = rng.choice("GRECJI"); return s, rng.randint(1, cnt[s])
    def sp3():
        m = rng.choice([1, 2, 3, 16, 17, 18, 34, 35, 40, rng.randint(1, 40)]); n = rng.randint(1, 4); t0 = date()[:3] + [rng.randint(0, 18), rng.randint(0, 40), rng.randint(0, 5999)]; dt = rng.choice([30, 60, 300, 900])
        def t(i): s = t0[4] * 60 + i * dt + t0[3] * 3600 + t0[5] // 100; return t0[:3] + [s // 3600, s % 3600 // 60, s % 60 * 100 + t0[5] % 100]
        ids = []
        while len(ids) < m:
            x = "%s%02d" % sat()
            if x not in ids: ids.append(x)
        rec = lambda: {"p": [rng.randint(-300000000, 300000000) for _ in range(3)], "c": rng.choice([999999999, rng.randint(-900000000, 900000000), rng.randint(-900000, 900000)]), "sd": rng.choice([[], [rng.randint(0, 99), rng.choice([-1, rng.randint(0, 99)]), rng.randint(0, 99), rng.choice([-1, rng.randint(0, 999)])]]), "fl": rng.choice([[], [rng.random() < .5 for _ in range(4)]])}
        return {"there": rng.random() < .97, "mode": rng.choice("PPV"), "first": t(0), "dt": dt * 1000, "gps": [rng.randint(1000, 3000), rng.randint(0, 604799)], "mjd": rng.randint(50000, 69999), "frac": rng.randint(0, 999999), "ids": ids, "acc": [rng.randint(0, 255) for _ in ids], "used": word(5), "sys": word(5),
                "orb": rng.choice(["FIT", "EXT", "BCT", "HLM"]), "ag": word(4), "ft": word(2), "ts": word(3), "bp": rng.randint(0, 9999999), "bc": rng.randint(0, 9999999), "com": rng.choice([0, 4, rng.randint(0, 9)]), "trim": rng.random() < .4, "corr": rng.random() < .4, "cut": rng.choice([-1, -1, rng.randint(0, n * (m + 1))]),
                "ep": [{"t": t(i), "s": [rec() for _ in ids]} for i in range(n)]}
    def ant():
        s, n = sat(); z = rng.choice([0, 50]); dz = rng.choice([5, 10, 50]); k = rng.randint(1, 18); fs = ["%s%02d" % (s, rng.randint(1, 9)) for _ in range(rng.randint(1, 3))]
        return {"rx": rng.random() < .25, "s": s, "n": n, "type": word(rng.randint(3, 20)), "dazi": rng.choice([0, 0, 300]), "g": [z, z + dz * k, dz], "from": date(), "to": rng.choice([[0, 1, 1, 0, 0, 0], date()]), "f": [{"name": f, "o": [rng.randint(-400000, 400000) for _ in range(3)], "v": [rng.randint(-9999, 9999) for _ in range(k + 1)]} for f in fs]}
    def atx():
        a = [ant() for _ in range(rng.randint(0, 5))]
        if len(a) > 1 and rng.random() < .6: a[-1]["s"], a[-1]["n"], a[-1]["rx"] = a[0]["s"], a[0]["n"], False
        return {"there": rng.random() < .95, "cut": rng.choice([-1, -1, -1, rng.randint(0, max(0, len(a) - 1))]) if a else -1, "part": rng.randint(0, 1), "ants": a}
    def bsx():
        b = [{"id": rng.choice(["DSB", "ISB", "OSB", "ABC"]), "svn": word(4), "prn": "%s%02d" % sat(), "st": rng.choice(["", word(9), word(4)]), "o1": rng.choice(["C1W", "C1P", "C2P", "C1C"]), "o2": rng.choice(["C2W", "C2P", "C1C", "C2C", ""]), "unit": rng.choice(["ns", "cyc", "m"]), "v": rng.randint(-999999, 999999), "sd": rng.randint(0, 9999),
              "sl": rng.choice([[], [rng.randint(-999999, 999999)], [rng.randint(-999999, 999999), rng.randint(0, 9999)]])} for _ in range(rng.randint(0, 6))]
        return {"there": rng.random() < .95, "cut": rng.choice([-1, -1, -1, rng.randint(0, len(b))]), "ref": rng.random() < .5, "b": b}
    for _ in range(120 if tier == "quick" else 2500):
        h = [{"op": "reset"}]; cur = {}
        for _ in range(rng.randint(6, 14)):
            o = rng.choice(["sp3", "atx", "bsx"]) if len(cur) < 3 and rng.random() < .5 else rng.choice(["get", "get", "get", "epoch", "near", "ant", "ant", "bias", "bias", "sp3", "atx", "bsx", "grid", "azi", "num", "idx"])
            if o in ("sp3", "atx", "bsx"): cur[o] = {"sp3": sp3, "atx": atx, "bsx": bsx}[o](); h.append({"op": o, "f": cur[o]})
            elif o in ("get", "epoch", "near"):
                f = cur.get("sp3"); n = len(f["ep"]) if f else 0
                if not f or (o == "near" and (f["cut"] >= 0 or not f["there"])): continue
                if o == "get": h.append({"op": o, "i": rng.randint(0, n), "k": rng.choice([0, len(f["ids"]) - 1, rng.randint(0, len(f["ids"]))])})
                elif o == "epoch": h.append({"op": o, "i": rng.randint(0, n)})
                else: h.append({"op": o, "ms": rng.randint(-f["dt"], f["dt"] * (n + 1))})
            elif o == "ant":
                f = cur.get("atx")
                if not f or not f["there"] or f["cut"] >= 0: continue
                a = [x for x in f["ants"] if not x["rx"]]
                if not a: continue
                x = rng.choice(a); same = [y for y in a if (y["s"], y["n"]) == (x["s"], x["n"])]; j = rng.randrange(len(same)); h.append({"op": o, "s": x["s"], "n": x["n"], "j": j, "f": rng.randrange(len(same[j]["f"]))})
            elif o == "bias":
                f = cur.get("bsx")
                if not f or not f["there"]: continue
                n = len(f["b"]) if f["cut"] < 0 else f["cut"]
                if n: h.append({"op": o, "i": rng.randrange(n)})
            elif o == "grid": dz = rng.choice([5, 10, 25, 50]); z = rng.choice([0, 50]); h.append({"op": o, "g": [z, z + dz * rng.randint(1, 18), dz], "z": rng.randint(-20, 950)})
            elif o == "azi": h.append({"op": o, "a": rng.choice([50, 100, 300, 900]), "z": rng.randint(0, 3600)})
            elif o == "num": s, n = sat(); h.append({"op": o, "s": s, "n": n})
            else: h.append({"op": o, "i": rng.randint(0, 170)})
        h.append({"op": "idx", "i": rng.randint(0, 170)}); hs.append(h)
    hs.sort(key=lambda h: -len(h[-1])); s, n = "G", 7; hs[-1].append({"op": "num", "s": s, "n": n}); return hs
prop("C34", title="GNSS products are read as their files give them",
  statement="A file of orbits and clocks, of antennas or of biases is read with every record in its place, with or without the optional fields, accuracies and correlations its format allows; asking for what is not there gives the values for missing data. A file that is missing or breaks off is read as far as it goes, without hanging or crashing. The nearest epoch or grid point is the nearest one, and numbers of satellites and their indices correspond one to one.",
  over=["inputs"], qtext="all contents of the product files, their optional fields, and places where they break off",
  why=TESTS + "Tests read one example of each file; optional columns, velocity records, single epochs or satellites and broken files are not among them.",
  files=["src/math_physics/gnss/sp3_file_reader.cpp", "src/math_physics/gnss/antex_file_reader.cpp", "src/math_physics/gnss/bias_sinex_file_reader.cpp", "src/math_physics/gnss/gnss_satellite_number.cpp"],
  mech=[("orbits and clocks", "Sp3FileReader"), ("antennas", "AntexFileReader, AntexGridDefinition"), ("biases", "BiasSinexFileReader, BiasSolutionData"), ("numbers", "ConvertGnssSatelliteNumberToIndex, ConvertIndexToGnssSatelliteNumber")],
  observe=["headers, epochs, positions, clocks, deviations and flags; antennas; biases; indices"],
  note="Formats SP3-d, ANTEX 1.4 (satellites, values independent of azimuth) and bias SINEX 1.00, written by the driver; files break off between records. Velocities and correlations are read past, the library does not give them out.",
  parts=[dict(module="Products", driver="products", groups=[mc(({"Deep": 2}, {"Deep": 3}), tag="files", limit=(2500, 20000)), gen("random", _pr_gen)])])
