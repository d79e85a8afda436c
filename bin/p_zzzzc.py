# The same settings, the same course (C59)
def _rp_gen(R, tier, rng):
    hs = []
    for _ in range(60 if tier == "quick" else 700):
        h = [{"op": "reset"}]; runs = []
        for _ in range(rng.randint(2, 4)):
            if len(h) > 1 and rng.random() < .3: h.append({"op": "new"})
            if runs and rng.random() < .6:        # one of the same spacecraft again, at the same date
                o = rng.choice(runs); sc = [rng.choice(o["sc"])]
                if rng.random() < .4: sc.insert(rng.randint(0, 1), rng.randint(0, 6))
                d = o["d"]
            else: sc, d = [rng.randint(0, 6) for _ in range(rng.choice([1, 1, 2]))], rng.randint(0, 3)
            o = {"op": "run", "d": d, "sc": sc, "n": rng.choice([2, 5, 15]), "log": rng.choice([1, 2, 5])}
            runs.append(o); h.append(o)
        if rng.random() < .5: h.append({"op": "new"})
        o = dict(rng.choice(runs)); o["log"] = rng.choice([1, 3]); o["n"] += rng.choice([0, 0, 3])
        if rng.random() < .5: o["sc"] = o["sc"][::-1]
        h.append(o); hs.append(h)
    return hs
prop("C59", title="The same settings give the same course, whatever ran before or beside",
  statement="Without random errors, the course of a spacecraft and of all that acts on it depends on its settings and the start date only, to the last digit. It is the same when a simulation is run again, in the same process or another, after other simulations, for longer or shorter, with more or less logging, and next to other spacecraft.",
  over=["inputs", "histories"], qtext="all sequences of simulations in one or more processes, and all fleets",
  why=TESTS + "No test runs two simulations: what one leaves behind in files' caches and shared variables shows in the next only.",
  files=["src/simulation/case/simulation_case.cpp", "src/simulation/spacecraft/spacecraft.cpp", "src/environment/local/geomagnetic_field.cpp", "src/math_physics/geomagnetic/igrf.cpp", "src/environment/local/local_environment.cpp", "src/dynamics/dynamics.cpp", "src/disturbances/disturbances.cpp"],
  mech=[("run", "SimulationCase::Initialize, Main"), ("spacecraft", "Spacecraft::Update"), ("shared state", "IgrfCalc, set_file_path")],
  observe=["digest of position, velocity, attitude, rate, disturbances, magnetic field, air density and solar pressure of every spacecraft after every step"],
  note="Seven kinds of spacecraft (all propagators, two magnetic models, all models of the air), four dates, one of them before a new period of the magnetic model. The ephemeris and NRLMSISE-00 are stand-ins.",
  parts=[dict(module="Repeat", driver="repeat", groups=[mc(({"Deep": 2}, {"Deep": 3}), tag="small", limit=(150, 1500)), gen("random", _rp_gen)])])
