_RA = dict(module="Rand", driver="rand")
def _rseed(rng): return rng.choice([1, 2, 3, -1, -7, 127773, 127774, 2147483646, -2147483646, rng.randint(1, 2147483646), -rng.randint(1, 2147483646), rng.randint(1, 99)])
def _rand_random(R, tier, rng):
    hs = []
    for i in range({"quick": 40, "thorough": 500}[tier]):
        h = [{"op": "reset"}]; ss = [_rseed(rng) for _ in range(2)]
        def new(op): return {"op": op, "how": rng.choice(["new", "seed", "seed", "def"]), "s": rng.choice(ss + ([0] if op != "nnew" else []))}
        k = rng.choice("lsgn")
        if k == "l":
            for _ in range(rng.randint(1, 4)): h += [new("lnew"), {"op": "lnext", "n": rng.randint(1, 300)}]
        elif k == "s":
            h.append({"op": "snew", "how": "def", "s": 1})
            for _ in range(rng.randint(1, 4)): h += [new("snew"), {"op": "snext", "n": rng.randint(1, 150)}]
        elif k == "g":
            h.append({"op": "gnew", "how": "def", "s": 1})
            for _ in range(rng.randint(2, 6)): h += [new("gnew"), {"op": "gnext", "n": rng.randint(1, 50)}]
        else:
            for _ in range(rng.randint(2, 7)):
                h.append(dict(new("nnew"), avg=rng.randint(-9, 9), sd=rng.randint(0, 9)))
                for _ in range(rng.randint(1, 3)):
                    h.append({"op": "nnext", "n": rng.randint(1, 15)})
                    if rng.random() < .3: h.append({"op": "nset", "avg": rng.randint(-9, 9), "sd": rng.randint(0, 9)})
        hs.append(h)
    h = [{"op": "reset"}, {"op": "lnew", "how": "new", "s": 1}]
    for _ in range({"quick": 10, "thorough": 200}[tier]): h.append({"op": "lnext", "n": 500})
    hs.append(h)
    for i in range({"quick": 8, "thorough": 100}[tier]):
        hs.append([{"op": "reset"}, {"op": "stat", "s": _rseed(rng), "n": 6000}])
    for i in range({"quick": 20, "thorough": 300}[tier]):
        lim = [rng.randint(0, 5) for _ in range(3)]
        hs.append([{"op": "reset"}, {"op": "walk", "sd": [rng.choice([0, 1, 3, 5]) for _ in range(3)], "lim": lim, "st": [rng.choice([-l - 1, -l, 0, l, l + 1, 7, -7]) for l in lim], "n": 60}])
    return hs
prop("C11", title="Random sequences depend only on their seed and follow their law",
  statement="Generators given the same seed, at any time and whatever they produced before, give the same sequence; uniform values are those of the minimal standard generator, shuffled or not, and lie between 0 and 1; seed zero is refused. Normal values have the asked mean and deviation and no correlation; random walks are driven back from beyond their limit and free within it; seeds given out are never zero.",
  over=["inputs", "histories"], qtext="all seeds, parameters and histories of seeding and drawing",
  why=TESTS + "The exact sequence over all seeds and its independence from history are not tested.",
  files=["src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp", "src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp", "src/math_physics/randomization/normal_randomization.hpp", "src/math_physics/randomization/global_randomization.cpp", "src/math_physics/randomization/random_walk_template_functions.hpp"],
  mech=[("uniform", "MinimalStandardLcg"), ("shuffle", "MinimalStandardLcgWithShuffle"), ("normal", "NormalRand"), ("seeds", "GlobalRandomization::MakeSeed"), ("walk", "RandomWalk::DerivativeFunction")],
  observe=["values given"],
  note="Exhaustive over short histories of seeding and drawing; random long ones, sequences of thousands, statistics of 6000 values.",
  parts=[dict(_RA, ops=["lnew", "lnext", "snew", "snext", "gnew", "gnext", "nnew", "nset", "nnext", "stat", "walk"], groups=[mc(({"Deep": 3}, {"Deep": 4}), limit=(1500, 8000)), gen("random", _rand_random)])])
