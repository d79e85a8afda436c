def _ini_random(R, tier, rng):
    hs = []
    for i in range({"quick": 120, "thorough": 2500}[tier]):
        secs = ["A", "SECTION_1", "B"]; keys = ["x", "key_name", "value_m"]; ents = []; seen = set()
        for _ in range(rng.randint(1, 25)):
            s, k, f = rng.choice(secs), rng.choice(keys), rng.choice([0, 0, 0, 1, 1, 1, 2, 3]); ix = rng.randint(0, 4) if f else 0
            if (s, k, f, ix) in seen: continue
            seen.add((s, k, f, ix)); t = rng.choice(["int", "int", "dec", "dec", "word", "path"])
            v = {"int": lambda: rng.choice([0, 1, 2, -1, 7, 255, 256, 100000]), "dec": lambda: rng.choice([1, -1]) * rng.choice([1500, 250, 125000, 999, 1001, 0]),
                 "word": lambda: rng.choice(["ENABLE", "DISABLE", "enable", "true", "false", "yes", "no", "on", "J2000", "abc", "a_b-c"]),
                 "path": lambda: rng.choice(["/d/CORE", "/d/EXT", "/d/SET"]) + rng.choice(["/data/x.csv", "/a/b/", ""])}[t]()
            ents.append({"s": s, "k": k, "i": ix, "f": f, "t": t, "v": v})
        if rng.random() < .5:      # whole quaternions in both notations, and lists of more than ten entries
            s, k = rng.choice(secs), rng.choice(keys); ents = [e for e in ents if not (e["s"] == s and e["k"] == k and e["f"] in (1, 2))]
            a = rng.choice([500, 250, 1000, 707, 1]); q = rng.choice([[a, -a, a, -a], [a, a, -a, -a], [a, 0, 0, -a], [0, 0, a, 0], [0, 0, 0, -a], [-a, a, -2 * a, 2 * a], [rng.randint(-999, 999) for _ in range(4)]])
            n = rng.choice([4, 4, 12])
            ents += [{"s": s, "k": k, "i": j, "f": 1, "t": "dec", "v": rng.randint(-999, 999)} for j in range(n)] + [{"s": s, "k": k, "i": j, "f": 2, "t": "dec", "v": v} for j, v in enumerate(q)]
            more = [{"op": "get", "how": w, "s": s, "k": k, "n": n} for w in ["quat", "dvec", "slist", "svec", "vec3"]]
        else: more = []
        h = [{"op": "reset"}, {"op": "ini", "ents": ents}] + more
        for _ in range(rng.randint(5, 25)):
            h.append({"op": "get", "how": rng.choice(["int", "dec", "bool", "enable", "str", "char", "ivec", "dvec", "vec3", "cvec", "arr", "svec", "slist", "quat"]), "s": rng.choice(secs + ["nil"]), "k": rng.choice(keys + ["nil"]), "n": rng.randint(0, 5)})
        hs.append(h)
    return hs
def _csv_random(R, tier, rng):
    hs = []
    for i in range({"quick": 120, "thorough": 2500}[tier]):
        h = [{"op": "reset"}]
        for _ in range(rng.randint(2, 8)):
            if rng.random() < .4:
                c = rng.randint(1, 6); k = rng.choice(["dbl", "hdr", "str"]); n = rng.randint(0, 8)
                h.append({"op": "csv", "kind": k, "rows": [[rng.randint(-99999, 99999) for _ in range(c)] for _ in range(n)], "rh": rng.randint(0, min(2, n)) if k == "hdr" else 0, "ch": rng.randint(0, c) if k == "hdr" else 0})
            else:
                h.append({"op": "scen", "en": rng.random() < .5, "rows": [{"t": rng.randint(0, 30), "d": [rng.randint(-5, 5) for _ in range(3)], "flag": rng.randint(0, 1), "p": rng.randint(0, 50)} for _ in range(rng.randint(1, 8))]})
                h += [{"op": "ask", "t": rng.randint(0, 40)} for _ in range(rng.randint(1, 12))]
        hs.append(h)
    return hs
def _log_random(R, tier, rng):
    hs = []
    for i in range({"quick": 60, "thorough": 600}[tier]):
        h = [{"op": "reset"}]
        for _ in range(2):
            h.append({"op": "title", "kind": rng.choice(["scalar", "vector", "quaternion", "matrix"]), "name": rng.choice(["pos", "w_x"]), "frame": rng.choice(["i", "b"]), "unit": rng.choice(["m", "rad/s", "-"]), "n": rng.randint(1, 4), "m": 2})
        h.append({"op": "log", "en": rng.random() < .8, "save": rng.random() < .6})
        fl = {1: 1, 2: 1, 3: 1}
        for _ in range(rng.randint(3, 40)):
            x = rng.random()
            if x < .2: h.append({"op": "add", "c": rng.randint(1, 3)})
            elif x < .23: h.append({"op": "clear"})
            elif x < .35: h.append({"op": "flag", "c": rng.randint(1, 3), "b": rng.random() < .5})
            elif x < .42: h.append({"op": "enable", "b": rng.random() < .7})
            elif x < .55: h.append({"op": "copy", "f": rng.randint(0, 3), "ver": rng.randint(1, 2)})
            else: h.append({"op": rng.choice(["head", "vals", "vals"]), "nl": rng.random() < .8})
        hs.append(h + [{"op": "close"}])
    return hs
_FI = dict(module="Files", driver="files")
prop("C27", title="Settings are read as written",
  statement="Every value of a settings file is returned under its own section, key and index in the requested type, with the documented default when it is missing or has another type; switches are on only for ENABLE or 1, vectors and lists keep their order and length, the newer of two quaternion notations wins, and directory variables and trailing comments in texts are resolved.",
  over=["inputs", "configurations"], qtext="all settings files and requests",
  why=TESTS + "Every component depends on it, and a mix-up of keys or indices goes unnoticed.",
  files=["src/setting_file_reader/initialize_file_access.cpp"], mech=[("typed reads", "IniAccess::Read...")], observe=["returned values"],
  note="Exhaustive over a pool of files times all requests; random files of up to 25 entries.",
  parts=[dict(_FI, ops=["ini", "get"], groups=[mc({"Fam": 1, "Deep": 1}), gen("random", _ini_random)])])
prop("C28", title="CSV tables and power scenarios are read whole, and scenarios hold their rows",
  statement="Tables are read row by row and cell by cell, leaving out exactly the header rows and columns asked for. A power scenario answers each time with the values of the last row at or before it, zero before the first row, whatever the order of the rows, and a newly read scenario replaces the previous one completely.",
  over=["inputs", "histories"], qtext="all tables, scenarios, and query times",
  why=TESTS + "Boundary rows and re-reading are not tested.",
  files=["src/setting_file_reader/initialize_file_access.cpp", "src/components/real/power/csv_scenario_interface.cpp"],
  mech=[("tables", "IniAccess::ReadCsv..."), ("scenario", "CsvScenarioInterface::Initialize, GetValueFromBuffer")], observe=["returned rows and values"],
  note="Exhaustive over small scenarios, re-reads and times; random tables and scenarios.",
  parts=[dict(_FI, ops=["csv", "scen", "ask"], groups=[mc(({"Fam": 2, "Deep": 1}, {"Fam": 2, "Deep": 2})), gen("random", _csv_random)])])
