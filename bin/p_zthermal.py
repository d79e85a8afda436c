def _heater_random(R, tier, rng):
    hs = []
    for i in range({"quick": 100, "thorough": 2000}[tier]):
        h = [{"op": "reset"}, {"op": "hc", "lo": rng.randint(-80, 80), "up": rng.randint(-80, 120), "p": rng.choice([0, 1000, 30000, -5])}]
        T = 0
        for _ in range(rng.randint(5, 60)):
            if rng.random() < .1: h.append({"op": "hset", "lower": rng.random() < .5, "v": rng.randint(-80, 120)})
            else: T += rng.randint(-40, 40); T = max(-200, min(200, T)); h.append({"op": "hctl", "T": T})
        hs.append(h)
    return hs
def _table(rng, n):
    ts = [0]
    for _ in range(n): ts.append(ts[-1] + rng.choice([1, 1, 2, 5, 20, 100]))
    return ts
def _hl_random(R, tier, rng):
    hs = []
    for i in range({"quick": 100, "thorough": 2000}[tier]):
        ts = _table(rng, rng.randint(1, 6))
        h = [{"op": "reset"}, {"op": "hl", "ts": ts, "vs": [rng.choice([0, rng.randint(-50000, 50000)]) for _ in ts]}]
        t = 0
        for _ in range(rng.randint(5, 50)):
            t = t + rng.choice([0, 1, 2, 3, 10, 77, 2 * ts[-1]]) if rng.random() < .8 else rng.choice([2 * x + 2 * ts[-1] * rng.randint(0, 3) for x in ts])
            h.append({"op": "hq", "t2": t, "so": rng.randint(0, 9000), "al": rng.randint(0, 9000), "ir": rng.randint(0, 9000), "he": rng.choice([0, 30000])})
        hs.append(h)
    return hs
def _net_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 3000}[tier]):
        n = rng.randint(1, 4); ts = _table(rng, rng.randint(1, 4)); nh = rng.randint(0, n); free = rng.sample(range(n), nh)
        cap = [rng.choice([400, 1000, 2000]) for _ in range(n)]
        nodes = [{"type": rng.choice([0, 0, 0, 1, 2]), "heater": 0, "cap": cap[k], "al": rng.choice([0, 2, 9, 10, 12]), "ep": rng.choice([0, 3, 10, 11]), "area": rng.choice([0, 2, 8]),
                  "nv": rng.randint(1, 10), "t": rng.choice([2730, 150000, 250000, 298150, 300000, 330000])} for k in range(n)]
        for k, f in enumerate(free): nodes[f]["heater"] = k + 1
        sym = rng.random() < .6
        def mat(vals):
            m = [[0] * n for _ in range(n)]
            for a in range(n):
                for b in range(n):
                    if a != b and rng.random() < .6: m[a][b] = rng.choice(vals)
                    if a > b and sym: m[a][b] = m[b][a]
            return m
        h = [{"op": "reset"}, {"op": "net", "nodes": nodes, "heaters": [{"p": rng.choice([5000, 30000]), "lo": rng.randint(190, 216), "up": rng.randint(180, 240)} for _ in range(nh)],
              "times": ts, "loads": [[rng.choice([0, rng.randint(-20000, 40000)]) for _ in ts] for _ in range(n)], "cij": mat([0, 1, 3, 10]), "rij": mat([0, 2, 10]), "solar": rng.random() < .6, "step": rng.choice([1, 2, 4, 8])}]
        t = 0
        for _ in range(rng.randint(4, 25)):
            if rng.random() < .2: h.append({"op": "env", "ek": rng.choice(["ax", "diag"]), "sk": rng.choice(["anti", "perp", "hid"]), "af": rng.choice([0, 3]), "hot": rng.choice([240, 400]), "cold": rng.choice([0, 180]), "j": rng.randint(0, 50)})
            else: t += rng.choice([0, 1, 2, 5, 8, 16, 30] if t < 260 else [0, 1, 2]); h.append({"op": "prop", "t": t})
        hs.append(h)
    return hs
_TH = dict(module="Thermal", driver="thermal")
prop("C24", title="Heaters switch with hysteresis between their two limits",
  statement="A heater that is off switches on exactly when its temperature is below the lower limit, one that is on switches off exactly when it is above the upper limit, and in between it keeps its state; on, it gives its rated power, off, none. It starts off; an upper limit below the lower one is replaced by the lower limit plus ten degrees at construction, and a negative rating counts as zero. In the thermal network each heater is controlled by its own node, and its power heats that node.",
  over=["inputs", "histories"], qtext="all limits, ratings and temperature histories",
  why=TESTS + "Hysteresis depends on the whole temperature history.",
  files=["src/dynamics/thermal/heater.cpp", "src/dynamics/thermal/heater_controller.cpp", "src/dynamics/thermal/temperature.cpp"],
  mech=[("hysteresis", "HeaterController::ControlHeater"), ("limits", "AssertHeaterControllerParams, AssertHeaterParams"), ("node heaters", "Temperature::UpdateHeaterStatus, GetHeaterPower_W")],
  observe=["heater state and power after each control step"],
  note="Exhaustive over a grid of limits and temperatures around them (every control step of the bounded model replayed); random long histories, alone and inside networks.",
  parts=[dict(_TH, ops=["hc", "hset", "hctl"], groups=[mc({"Fam": 1, "Deep": 1}), gen("random", _heater_random)]),
         dict(_TH, ops=["net", "prop"], groups=[gen("net", _net_random)])])
prop("C25", title="Heat loads follow their table, period after period",
  statement="The internal heat load of a node is interpolated linearly between the times of its table, which repeats after its last time, whatever times are asked for and however many periods have passed; it never leaves the range of the table. The total heat load is the sum of its five parts.",
  over=["inputs", "histories"], qtext="all tables of two or more increasing times from zero, all sequences of times",
  why=TESTS + "Errors appear only after the first period or at table entries.",
  files=["src/dynamics/thermal/heatload.cpp"], mech=[("table position", "Heatload::SetElapsedTime_s"), ("interpolation", "Heatload::CalcInternalHeatload")], observe=["internal and total heat load"],
  note="Exhaustive over three tables and sequences of times; random tables and times beyond.",
  parts=[dict(_TH, ops=["hl", "hq"], groups=[mc(({"Fam": 2, "Deep": 2}, {"Fam": 2, "Deep": 3})), gen("random", _hl_random)])])
prop("C26", title="The thermal network balances heat and keeps boundaries fixed",
  statement="Each node's temperature changes by the net heat it receives (conduction, radiation, sunlight, albedo, Earth infrared, internal load and heater) divided by its heat capacity, over exactly the simulated time asked for, whatever the integration step. Boundary and arithmetic nodes keep their temperature, sunlight and albedo count only when enabled, only on the lit side and not in eclipse, and the log lists these values in order.",
  over=["inputs", "histories"], qtext="all networks, environments and propagation times within the integration accuracy",
  why=TESTS + "The balance must hold for every network and sky.",
  files=["src/dynamics/thermal/temperature.cpp", "src/dynamics/thermal/node.cpp", "src/environment/local/earth_albedo.cpp", "src/environment/local/earth_infrared.cpp"],
  mech=[("integration", "Temperature::Propagate, CalcRungeOneStep, CalcTemperatureDifferentials"), ("heat from outside", "Node::CalcSolarRadiation_W, CalcAlbedoRadiation_W, CalcEarthInfraredRadiation_W")],
  observe=["node temperatures, heater power, logged heat"],
  note="Heat exchanged between nodes is compared within an eighth (the integrator evaluates it at the start of each step, and the specification must accept a higher order as well), the rest within half a percent; Earth at 1.1 radii in two directions, Sun in three.",
  parts=[dict(_TH, ops=["net", "env", "prop"], groups=[mc(({"Fam": 3, "Deep": 2}, {"Fam": 3, "Deep": 4}), limit=(1500, 15000)), gen("random", _net_random)])])
