def _power_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 2500}[tier]):
        ids = rng.sample(range(1, 60), 4)
        h = [{"op": "reset"}]; live = {0}
        volts = [0, 16, 52, 53, 54, 80, 112, 192, 448, rng.randint(1, 800)]
        for _ in range(rng.randint(10, 80)):
            k = rng.random(); p = rng.choice(ids)
            if k < .15:
                if rng.random() < .5: h.append({"op": "conn", "p": p, "l": rng.choice([0, 1, 8, 16, 48, 160])})
                else: h.append({"op": "connf", "p": p, "l": rng.choice([1, 8, 16, 48, 160]), "m": rng.choice([1, 32, 53, 80, 200]), "w": rng.choice([0, 8, 80, 160, 320])})
                live.add(p)
            elif k < .2: h.append({"op": "close", "p": p}); live.discard(p)
            elif k < .25: h.append({"op": "get", "p": p})
            elif k < .28: h.append({"op": "tick"})
            else:
                p = rng.choice(sorted(live)); o = rng.choice(["volt", "volt", "volt", "upd", "upd", "setp", "addp", "subp", "setm", "setl", "ini"])
                x = {"volt": rng.choice(volts), "setp": rng.choice([0, 16, 80, 81, 160, 500]), "addp": rng.choice([0, 1, 16, 100]), "subp": rng.choice([0, 1, 16, 100, 600]),
                     "setm": rng.choice([1, 16, 53, 80, 192]), "setl": rng.choice([0, 1, 16, 17, 160])}.get(o)
                if o == "upd": h.append({"op": o, "p": p})
                elif o == "ini": h.append({"op": o, "p": p, "m": rng.choice([1, 16, 53, 80]), "w": rng.choice([0, 16, 100])})
                else: h.append({"op": o, "p": p, "x": x})
        hs.append(h)
    return hs
_POW = dict(module="Power", driver="power")
prop("C12", title="A power line is on exactly when its voltage suffices and its current is in limit",
  statement="Whenever a power line is evaluated it is on if and only if its voltage is at least the minimum voltage of its load and the drawn current, assumed power over voltage, is below the current limit; when it is on it draws exactly that current and when it is off it draws none. An over-current switches the line off and takes its voltage away, so it stays off until a voltage is set again; a new line is off, and one made without parameters is on.",
  over=["histories", "inputs"], qtext="all sequences of voltage, power, limit and minimum-voltage changes",
  why=TESTS + "Switching depends on what was set before the last evaluation.",
  files=["src/components/ports/power_port.cpp", "src/components/ports/power_port.hpp"], mech=[("switching and over-current protection", "PowerPort::Update, PowerPort::SetVoltage_V")],
  observe=["voltage, switch state, current and assumed power of every line after every operation"],
  note="Exhaustive over boundary values of voltage, minimum, limit and power; random sequences over wider values. Binary fractions only, so comparisons at the boundary are exact.",
  parts=[dict(_POW, ops=["volt", "upd", "setp", "addp", "subp", "setm", "setl", "ini"], groups=[
    mc(({"Fam": 2, "Ids": "{1}", "Volts": "{0,53,80}", "Lims": "{16,48}", "Mins": "{53,80}", "Pows": "{0,80,240}"},
        {"Fam": 2, "Ids": "{1}", "Volts": "{0,52,53,80}", "Lims": "{0,16,48}", "Mins": "{16,53,80}", "Pows": "{0,80,160,240}"}), limit=(6000, 40000)),
    sim({"Fam": 2, "Ids": "{1}", "Volts": "{0,52,53,54,80,160}", "Lims": "{16,32,160}", "Mins": "{16,53,80}", "Pows": "{0,80,81,160,320}"}, (100, 1500), (30, 60)),
    gen("random", _power_random)])])
prop("C13", title="The power control unit keeps its lines apart",
  statement="Connecting an identifier that is in use and closing one that is not are refused and change nothing; otherwise connecting gives a new line with just the given limit, minimum voltage and power, and closing frees the identifier for a later connection that starts anew. Nothing done to one line, and no run of the unit itself, changes any other line.",
  over=["histories"], qtext="all sequences of connections, closings and switching of several lines",
  why=TESTS + "Stale or shared lines show only after reconnecting and switching in particular orders.",
  files=["src/components/real/power/power_control_unit.cpp"], mech=[("line table", "PowerControlUnit::ConnectPort, ClosePort")],
  observe=["return codes; state of all lines after every operation"],
  note="Exhaustive over two lines; random sequences over four.",
  parts=[dict(_POW, ops=["conn", "connf", "close", "get", "tick", "volt"], groups=[
    mc(({"Fam": 1, "Ids": "{1,2}", "Volts": "{0,80}", "Lims": "{16}", "Mins": "{80}", "Pows": "{0,40}"},
        {"Fam": 1, "Ids": "{1,2,3}", "Volts": "{0,80}", "Lims": "{16}", "Mins": "{80}", "Pows": "{40}"}), limit=(6000, 40000)),
    sim({"Fam": 1, "Ids": "{1,2,7}", "Volts": "{0,53,80}", "Lims": "{16,48}", "Mins": "{53,80}", "Pows": "{0,40,160}"}, (100, 1500), (30, 60)),
    gen("random", _power_random)])])
def _energy_random(R, tier, rng):
    hs = []
    dirs = [([1, 0, 0], 1), ([0, -1, 0], 1), ([0, 0, 1], 1), ([3, 4, 0], 5), ([0, -3, 4], 5), ([1, 2, 2], 3), ([-2, 1, 2], 3), ([2, -3, 6], 7), ([-1, 0, 0], 1), ([-6, -2, -3], 7)]
    for i in range({"quick": 120, "thorough": 2500}[tier]):
        n = rng.randint(1, 4)
        saps = [dict(zip(("k", "nv", "nn", "pre"), (rng.choice([2000, 9000, 40000, 61000]),) + rng.choice(dirs) + (rng.choice([1, 1, 2, 3]),))) for _ in range(n)]
        order = [10, 11] + list(range(1, n + 1)); rng.shuffle(order)
        ser = rng.choice([3, 4, 8]); c0 = rng.choice([4100, 4200])
        t = 0; rows = []
        for _ in range(rng.randint(1, 6)):
            d, nn = rng.choice(dirs); t += rng.choice([5, 10, 25, 60])
            rows.append({"t": t, "d": d, "n": nn, "flag": rng.choice([0, 1, 1]), "p": rng.choice([0, 500, 2000, 12500, 25000])})
        h = [{"op": "reset", "saps": saps, "step": rng.choice([1, 5, 10, 20]), "bpre": rng.choice([1, 1, 2, 5]), "ppre": rng.choice([1, 1, 2, 3]), "order": order, "ser": ser, "par": rng.choice([1, 2, 3]),
              "cap": rng.choice([20, 30, 55]), "c0": c0, "c1": rng.choice([-300, -120, 0]), "c2": rng.choice([0, 0, -3, 2]), "cc": rng.choice([500, 1200, 4000]), "cv": ser * rng.choice([40000, 41000, 42000]),
              "res": rng.choice([100, 150, 400]), "dod": rng.choice([0, 1000000, 20000000, 40000000]), "scen": rng.random() < .35, "rows": rows, "ini": rng.random() < .6}]
        for _ in range(rng.randint(5, 30)):
            if rng.random() < .3 and not h[0]["scen"]:
                d, nn = rng.choice(dirs); h.append({"op": "env", "s": d, "n": nn, "d": rng.choice([2, 2, 4, 1]), "ecl": rng.random() < .3})
            else: h.append({"op": "tick"})
        hs.append(h)
    return hs
prop("C14", title="Solar power, charge and consumption balance in the power system",
  statement="A solar panel gives its rated power times the present sunlight times the cosine of the sun angle, nothing from behind or in eclipse; the depth of discharge changes by exactly the charge that flowed, and the battery voltage follows its discharge curve. The charge current is the largest one allowed by the power balance, the constant current and the constant voltage, the bus voltage is the battery voltage raised by it, and panels and consumption follow the scenario when there is one, as long as the battery can supply the load.",
  over=["histories", "inputs"], qtext="all parameters, sun histories, scenarios, component periods and orders",
  why=TESTS + "The regimes of the charge control and the history of discharge interact over long runs.",
  files=["src/components/real/power/battery.cpp", "src/components/real/power/pcu_initial_study.cpp", "src/components/real/power/solar_array_panel.cpp", "src/components/real/power/csv_scenario_interface.cpp"],
  mech=[("discharge", "Battery::MainRoutine, UpdateBatVoltage"), ("charge control", "PcuInitialStudy::UpdateChargeCurrentAndBusVoltage"), ("generation", "SolarArrayPanel::MainRoutine")],
  observe=["generated power, depth of discharge, battery and bus voltage, consumption after every tick"],
  note="Fixed-point specification, compared within rounding (about 0.1 %), re-anchored on the observation after each tick. Exhaustive over short sun histories in five configurations; random configurations and histories.",
  parts=[dict(module="Energy", driver="energy", ops=["reset", "env", "tick"], groups=[
    mc(({"Cfgs": "{1,2,3,4,5}", "MaxN": 3}, {"Cfgs": "{1,2,3,4,5}", "MaxN": 4}), limit=(1500, 12000)),
    gen("random", _energy_random)])])
