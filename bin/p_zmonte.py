_MO = dict(module="Monte", driver="monte")
_MT = ["NoRandomization", "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform", "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal"]
def _mpar(rng, ty=None, three=False):
    ty = ty or rng.choice(_MT); z = rng.random() < .5
    if ty in ("NoRandomization", "CartesianUniform", "CartesianNormal"):
        n = 3 if three else rng.randint(1, 3); lo = [rng.randint(-3, 3) for _ in range(n)]
        hi = [l + rng.randint(0, 3) for l in lo] if ty == "CartesianUniform" else [rng.randint(0, 2) for _ in lo]
    elif ty == "CircularNormalUniform": a = rng.randint(-6, 6); lo, hi = [rng.randint(1, 4), a], [0 if z else rng.randint(1, 2), a + rng.randint(0, 6)]
    elif ty == "CircularNormalNormal": lo, hi = [rng.randint(1, 4), rng.randint(-6, 6)], [0 if z else 1, rng.choice([0, 0, 2, 5])]
    elif ty == "SphericalNormalUniformUniform": a, b = rng.randint(0, 5), rng.randint(-6, 6); lo, hi = [rng.randint(1, 4), a, b], [0 if z else 1, rng.randint(a, 6), b + rng.randint(0, 6)]
    elif ty == "SphericalNormalNormal":
        lo = [0, 0, 0]
        while lo == [0, 0, 0]: lo = [rng.choice([0, rng.randint(-2, 2)]) for _ in range(3)]
        hi = [0 if z else 1, rng.choice([0, 0, 2, 5])]
    elif ty == "QuaternionUniform": lo, hi = [0], [0]
    else: lo, hi = [0], [rng.choice([0, 1, 5])]
    if three: lo, hi = (lo + [0, 0, 0])[:3], (hi + [0, 0, 0])[:3]
    return {"ty": ty, "lo": lo, "hi": hi}
def _msize(p): return {"C": 2, "S": 3, "Q": 4, "N": 9}[p["ty"][0]] if p["ty"][:4] != "Cart" else len(p["lo"])
def _mnames(n): return [("S%d" % i, ip) for i in range(n) for ip in ("d", "v", "q")]
def _monte_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 2500}[tier]):
        h = [{"op": "reset"}]; pars = {}
        h.append({"op": "seed", "s": rng.choice([0, 1, 2, 12345])})
        if rng.random() < .5:
            ps = []
            for so, ip in rng.sample(_mnames(3), rng.randint(1, 6)):
                p = _mpar(rng, three=True); ps.append(dict(p, so=so, ip=ip)); pars[so, ip] = p
            h.append({"op": "ini", "total": rng.randint(0, 5), "en": rng.random() < .8, "save": rng.random() < .5, "ps": ps})
        else:
            h.append({"op": "new", "total": rng.randint(0, 5)})
            if rng.random() < .5: h.append({"op": "en", "b": rng.random() < .8})
            for _ in range(rng.randint(1, 5)):
                so, ip = rng.choice(_mnames(2)); p = _mpar(rng)
                h.append(dict(p, op="add", so=so, ip=ip)); pars.setdefault((so, ip), p)
        def gets():
            for (so, ip), p in pars.items():
                if rng.random() < .7: h.append({"op": "get", "so": so, "ip": ip, "kind": rng.choice(["d", "v2", "v3", "q", {1: "d", 2: "v2", 3: "v3", 4: "q", 9: "v3"}[_msize(p)]])})
        plan = []
        for _ in range(rng.randint(1, 4)): plan.append((rng.random() < .5, len(h)))
        h.append({"op": "rnd"}); gets()
        for _ in range(rng.randint(0, 3)):
            if rng.random() < .4: h.append({"op": "end"})
            if rng.random() < .2: h.append({"op": "save", "b": rng.random() < .5})
            h.append({"op": "rnd"}); gets()
        if rng.random() < .7:   # again from the same seed
            h.append(dict(h[1])); k = [e["op"] for e in h].count("rnd")
            for _ in range(k): h.append({"op": "rnd"}); gets()
        h.append({"op": "get", "so": "none", "ip": "d", "kind": "d"})
        hs.append(h)
    return hs
def _monte_objs(R, tier, rng):
    hs = []
    for i in range({"quick": 80, "thorough": 1500}[tier]):
        h = [{"op": "reset"}, {"op": "new", "total": rng.randint(1, 4)}]
        if rng.random() < .3: h.append({"op": "en", "b": rng.random() < .7})
        fit = {"d": _MT[1:3], "v": ["CartesianUniform", "SphericalNormalUniformUniform", "SphericalNormalNormal", "NoRandomization"], "q": ["QuaternionUniform", "QuaternionNormal", "NoRandomization"]}
        for so, ip in rng.sample(_mnames(4), rng.randint(0, 8)):
            h.append(dict(_mpar(rng, rng.choice(fit[ip]), three=ip == "v"), op="add", so=so, ip=ip))
        h.append({"op": "rnd"}); live = set()
        for _ in range(rng.randint(3, 25)):
            x = rng.random(); n = "S%d" % rng.randint(0, 4)
            if x < .35: h.append({"op": "so", "name": n}); live.add(n)
            elif x < .5 and live: n = rng.choice(sorted(live)); live.discard(n); h.append({"op": "del", "name": n})
            elif x < .6: h.append({"op": "rnd"})
            else: h.append({"op": "setall"})
        hs.append(h)
    return hs
def _monte_stat(R, tier, rng):
    hs = []; n = 4000
    ps = [{"ty": "CartesianUniform", "lo": [-3, 0, 5], "hi": [3, 1, 5]}, {"ty": "CartesianNormal", "lo": [1, -2], "hi": [1, 2]}, {"ty": "QuaternionUniform", "lo": [0], "hi": [0]},
          {"ty": "QuaternionNormal", "lo": [0], "hi": [2]}, {"ty": "SphericalNormalUniformUniform", "lo": [8, 0, -6], "hi": [1, 6, 6]}, {"ty": "SphericalNormalUniformUniform", "lo": [8, 1, 0], "hi": [0, 2, 3]},
          {"ty": "SphericalNormalNormal", "lo": [8, 0, 0], "hi": [1, 2]}, {"ty": "SphericalNormalNormal", "lo": [0, 9, 0], "hi": [1, 3]}, {"ty": "SphericalNormalNormal", "lo": [4, -5, 6], "hi": [1, 1]},
          {"ty": "CircularNormalUniform", "lo": [8, 0], "hi": [1, 12]}, {"ty": "CircularNormalNormal", "lo": [9, 2], "hi": [1, 3]}]
    for s in range({"quick": 2, "thorough": 20}[tier]):
        hs.append([{"op": "reset"}] + [dict(p, op="stat", s=rng.randint(0, 10 ** 6), n=n) for p in ps])
    return hs
prop("C09", title="Monte-Carlo runs execute and log exactly the asked cases",
  statement="With Monte-Carlo execution enabled exactly the asked number of cases is executed, otherwise exactly one; it is enabled by default only for more than one case, and the settings file decides when there is one. Every case's log is written under its own number when asked for, and always when Monte-Carlo execution is disabled.",
  over=["histories", "configurations"], qtext="all sequences of settings and cases",
  why=TESTS + "Counting errors show at zero or one cases and when settings change between cases.",
  files=["src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp", "src/simulation/case/simulation_case.cpp"], mech=[("counting", "MonteCarloSimulationExecutor::WillExecuteNextCase, AtTheEndOfEachCase"), ("log", "SimulationCase constructor")],
  observe=["flags and counts; log files of a case"],
  note="Exhaustive over sequences of up to 5 (6) operations, each followed by a case with its log files; random settings files.",
  parts=[dict(_MO, ops=["new", "en", "tot", "save", "begin", "end", "loop", "case"], groups=[mc(({"Fam": 1, "Deep": 5}, {"Fam": 1, "Deep": 6}), limit=(1200, 8000)), only(["new", "en", "save", "end", "ini"], gen("random", _monte_random))])])
prop("C10", title="Monte-Carlo parameters are drawn afresh by their law and delivered by name",
  statement="Every case draws each registered parameter anew by its randomization (bounds of uniform ones, means, deviations and directions of the others, all attitudes alike for uniform quaternions), the same seed giving the same values. Each living simulation object is given exactly the values registered under its own name, values not registered, not randomized or disabled are left alone, and ambiguous names or missing settings are refused.",
  over=["inputs", "histories"], qtext="all registrations, seeds, and histories of objects and cases",
  why=TESTS + "Statistical laws and object lifetimes over cases are beyond single examples.",
  files=["src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp", "src/simulation/monte_carlo_simulation/simulation_object.cpp", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.cpp"],
  mech=[("randomization", "InitializedMonteCarloParameters::Randomize"), ("registry", "MonteCarloSimulationExecutor::AddInitializedMonteCarloParameter"), ("objects", "SimulationObject::SetAllParameters")],
  observe=["values delivered to objects; statistics of 4000 draws"],
  note="Exhaustive over small registries and object lifetimes; random configurations with reseeding; statistics for every law.",
  parts=[dict(_MO, ops=["add", "rnd", "get"], groups=[mc({"Fam": 2, "Deep": 5}, tag="mc2", limit=(800, 6000))]),
         dict(_MO, ops=["so", "del", "setall", "add"], groups=[mc(({"Fam": 3, "Deep": 7}, {"Fam": 3, "Deep": 8}), tag="mc3", limit=(800, 6000)), gen("objects", _monte_objs)]),
         dict(_MO, ops=["seed", "ini", "rnd", "get"], groups=[gen("random", _monte_random)]),
         dict(_MO, ops=["stat"], groups=[gen("stat", _monte_stat)], live=False)])
