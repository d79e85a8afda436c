def _mission_random(dist):
    def fn(R, tier, rng):
        hs = []
        for i in range({"quick": 30, "thorough": 300}[tier] if not dist else {"quick": 25, "thorough": 150}[tier]):
            step = rng.choice([1, 2, 4, 8])
            n = rng.randint(3, {"quick": 25, "thorough": 60}[tier])
            iv = lambda m: step * rng.randint(1, m) - (rng.randint(0, step - 1) if False else 0)
            ns = rng.randint(1, 3) if not dist else rng.randint(1, 2)
            end = step * (n - 1) + rng.choice([0, 0, rng.randint(0, step - 1)])
            h = [{"op": "reset", "step": step, "end": max(end, 1), "att": iv(4), "orb": iv(4), "comp": iv(3), "log": iv(5), "mass": rng.choice([1, 2, 4]), "dist": dist,
                  "pre": [rng.choice([0, 1, 2, 3]) for _ in range(ns)],
                  "f": [[rng.randint(-9, 9) for _ in range(rng.randint(1, 6))] for _ in range(ns)],
                  "t": [[rng.randint(-5, 5) for _ in range(rng.randint(1, 6))] for _ in range(ns)]}]
            total = h[0]["end"] // step + 1
            h += [{"op": "step"}] * total + [{"op": "end"}]
            hs.append(h)
        return hs
    return fn
_M = dict(module="Mission", driver="mission", ops=["step", "end"])
_MF = ["src/simulation/case/simulation_case.cpp", "src/simulation/spacecraft/spacecraft.cpp", "src/dynamics/dynamics.cpp", "src/disturbances/disturbances.cpp",
       "src/environment/local/local_environment.cpp", "src/environment/global/global_environment.cpp", "src/logger/logger.cpp"]
_MMC = lambda d, q, t: mc(({"Ivals": q, "Ends": "{4,5}", "Pres": "{1,21}", "Dists": d}, {"Ivals": t, "Ends": "{6,7,11}", "Pres": "{1,2,31}", "Dists": d}), limit=(400, 4000))
prop("C06", title="A run logs one complete record per due instant and updates everything once per step",
  statement="A run performs exactly one update of the environment and of every spacecraft per simulation step until the first step whose elapsed time exceeds the duration, and then stops. The log file has one header and one record for the initial instant and for each later due instant within the duration, in time order, each record showing the state reached at its own time stamp and having exactly as many columns as the header; the initialisation files are saved next to it.",
  over=["histories", "configurations"], qtext="all durations, steps, rates, log intervals, numbers of spacecraft",
  why=TESTS + "The run loop, its final step and the log table are exercised by no test, and the counts depend on every interval.",
  files=_MF, mech=[("run loop", "SimulationCase::Main"), ("table", "Logger::WriteHeaders, WriteValues")], observe=["calls into the spacecraft per step", "contents of the log file"],
  note="Whole simulations of the real classes (1 to 3 spacecraft with probe components) are run for every bounded configuration TLC enumerates plus random ones; every step and the log file are validated against the specification. CSPICE and NRLMSISE are stand-ins.",
  parts=[dict(_M, groups=[_MMC("{FALSE}", "{1,2,3}", "{1,2,3,4}"), gen("random", _mission_random(False))])])
prop("C07", title="Forces and torques of a step act on the dynamics exactly once, from the right sources",
  statement="In every step a spacecraft first lets its components run (if due), then component interference, and then the force and torque its components generate in that step together with the disturbance totals are applied to the orbit and attitude; nothing generated in an earlier step is applied again and nothing is lost or applied to another spacecraft. Attitude and orbit advance only in their own due steps, each over exactly the time since its previous advance, so with constant forces velocity and angular velocity change by force over mass times that time. Disturbances that depend on attitude are recomputed in steps where attitude or orbit is due, the others only where orbit is due, and a disabled one contributes nothing.",
  over=["histories", "configurations"], qtext="all force and torque histories, rates, masses, numbers of spacecraft",
  why=TESTS + "Double counting or stale forces are visible only over several steps and with particular rate combinations.",
  files=_MF, mech=[("spacecraft step", "Spacecraft::Update"), ("multi-rate propagation", "Dynamics::Update"), ("disturbance totals", "Disturbances::Update")],
  observe=["position, velocity, angular velocity, disturbance totals after each step"],
  note="Kinematics are exact (central gravity switched off, unit inertia) so the specification predicts every velocity and position; with disturbances on, their update instants and their effect on velocity are checked against the recorded totals.",
  parts=[dict(_M, groups=[_MMC("{FALSE}", "{1,2,3}", "{1,2,3,4}"), gen("random", _mission_random(False)), _MMC("{TRUE}", "{1,3}", "{1,2,3}"), gen("dist", _mission_random(True))])])
