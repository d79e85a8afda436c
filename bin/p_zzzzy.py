# Numerical integration (C55)
def _in_gen(R, tier, rng):
    hs = []
    for _ in range(250 if tier == "quick" else 6000):
        m = rng.choice(["rk4", "rkf", "dp5", "ode"]); hi = m in ("rkf", "dp5"); full = hi and rng.random() < .4
        def put(op):
            t = rng.randint(0, 8); return {"op": op, "H": rng.choice([1, 1, 2, 4]), "T": t, "pc": [rng.randint(-9, 9) for _ in range(4)] + [rng.randint(-9, 9) if full else 0],
                    "ch": [rng.randint(-5, 5) for _ in range(5)] + [rng.randint(-5, 5) if full else 0], "C": rng.randint(61, 99), "C2": rng.randint(1250, 1900)}
        h = [dict(put("reset"), m=m, mgr=rng.random() < .5)]; t, w, l = h[0]["T"], h[0]["H"], 0
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < .5:
                n = rng.randint(1, 4)
                if t + n * w <= 20: h.append({"op": "step", "n": n}); t += n * w; l = w
            elif x < .62: w = rng.choice([1, 2, 4]); h.append({"op": "width", "H": w})
            elif x < .68: h.append(put("set")); t, w, l = h[-1]["T"], h[-1]["H"], 0
            elif l and hi and not full: h.append({"op": "mid", "s": rng.choice({4: [0, 1, 2, 3, 4], 2: [0, 2, 4], 1: [0, 4]}[l])})
        h.append(put("set")); hs.append(h)
    for _ in range(60 if tier == "quick" else 1000):
        h = [hs[0][0]]
        if rng.random() < .5: h.append({"op": "ctl", "m": rng.choice(["rkf", "dp5"]), "a": rng.choice([0, 0, 1, -5]), "H": rng.choice([2, 3, 4]), "tol": rng.choice([-6, -7, -8, -9])})
        h.append({"op": "lag", "h": rng.choice([0, 1, 3, 10]), "c": rng.choice([0, 2, 10, 60]), "g": rng.choice([10, 20, -5, 0])})
        h += [{"op": "in", "u": rng.choice([0, rng.randint(-50, 50)])} for _ in range(rng.randint(2, 12))]; hs.append(h)
    return hs
prop("C55", title="Numerical integration follows the exact solution to its order",
  statement="Every integration method is exact on polynomials up to its order and otherwise as close as its order implies, for vectors of any coupling, explicit time dependence, changing step widths and restarts. Interpolation between the last two states lies on the same solution whatever happened to the step width since; automatic step control leads to the asked tolerance and never to an unusable width. A first-order lag follows its input with its gain and time constant.",
  over=["inputs", "histories"], qtext="all histories of steps, widths, restarts and interpolations",
  why=TESTS + "Tests compare single runs; every orbit and attitude rests on all the coefficients, each of which only matters for some terms.",
  files=["src/math_physics/numerical_integration/runge_kutta_template.hpp", "src/math_physics/numerical_integration/runge_kutta_4.hpp", "src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp", "src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp", "src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp", "src/math_physics/math/ordinary_differential_equation_template_functions.hpp", "src/math_physics/control_utilities/first_order_lag.hpp"],
  mech=[("steps", "RungeKutta::Integrate, EmbeddedRungeKutta::Integrate, OrdinaryDifferentialEquation::Update"), ("interpolation", "CalcInterpolationState"), ("step control", "ControlStepWidth"), ("lag", "FirstOrderLag::Update")],
  observe=["states", "interpolated states", "estimated errors"],
  note="Problems with exact polynomial and rational solutions, times up to one second in steps of 0.05 to 0.2. The four-stage method has no interpolation.",
  parts=[dict(module="Integrate", driver="integrate", groups=[mc(({"Deep": 4}, {"Deep": 5}), tag="steps", limit=(2500, 20000)), gen("random", _in_gen)])])
