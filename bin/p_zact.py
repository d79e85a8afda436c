def _wheel(rng, dd, jit=False):
    pre = rng.choice([1, 1, 2, 3, 4]); rmax = rng.choice([5, 20, 100]) if not jit else rng.choice([100, 300])
    f0, f1 = rng.choice([0, 500, 8000]), rng.choice([0, 1, 5])
    stop = 2 * (f0 * pre // dd) + 1000 + rng.choice([0, 5000])
    return {"op": "wheel", "pre": pre, "tmax": rng.choice([1, 4, 10, 40]), "rmax": rmax, "axis": rng.choice([1, -1, 2, -2, 3, -3]), "dead4": rng.choice([0, 1, 3, 4, 5, 8, 11, 20]), "m": rng.choice([0, 1, 2, 3, 7]),
            "f0": f0, "f1": f1, "stop": stop, "drv": rng.random() < .7, "w0": rng.choice([0, 0, 30000, -200000, 800000]) if not jit else rng.choice([0, 500000, -1500000]), "ini": jit or rng.random() < .5, "byq": rng.random() < .5,
            "jc": rng.choice([10, 30, 50]) if jit else 0, "fp": rng.choice([1, 1, 2, 3])}
def _wheel_random(jit):
    def g(R, tier, rng):
        hs = []
        for i in range({"quick": 160 if not jit else 60, "thorough": 3000 if not jit else 900}[tier]):
            dd = rng.choice([1, 2, 4, 8]); n = rng.choice([1, 2, 3]) if not jit else rng.choice([1, 2, 2, 3])
            h = [{"op": "reset", "dd": dd}] + [_wheel(rng, dd, jit) for _ in range(n)]
            for _ in range(rng.randint(10, 60)):
                x = rng.random(); j = rng.randint(1, n)
                if x < .7: h.append({"op": "tick"})
                elif x < .82: h.append({"op": "wt", "i": j, "T": rng.randint(-45, 45) if rng.random() < .7 else rng.choice([-4, 4, 1, -1, 0, 10]), "body": rng.random() < .5})
                elif x < .88: h.append({"op": "wlim", "i": j, "v": rng.choice([1, 4, 15, 60, 200, 1000])})
                elif x < .94: h.append({"op": "wdrv", "i": j, "on": rng.random() < .6})
                else: h.append({"op": "wpow", "i": j, "on": rng.random() < .6})
            h.append({"op": "tick"})
            hs.append(h)
        return hs
    return g
def _thr_random(R, tier, rng):
    hs = []
    for i in range({"quick": 160, "thorough": 3000}[tier]):
        n = rng.choice([1, 2])
        h = [{"op": "reset", "dd": rng.choice([1, 2, 4, 8])}]
        for _ in range(n):
            h.append({"op": "thr", "pre": rng.choice([1, 1, 2, 3]), "mag": rng.choice([10, 500, 8000]), "dir": rng.choice([1, -1, 2, -2, 3, -3]), "dn": rng.choice([1, 2, 5]), "pos": [rng.randint(-5, 5) for _ in range(3)],
                      "cg": [rng.randint(-3, 3) for _ in range(3)], "dead4": rng.choice([0, 1, 3, 4, 5, 8, 11, 20]), "m": rng.choice([0, 1, 2, 3, 7]), "ini": rng.random() < .5})
        for _ in range(rng.randint(10, 50)):
            x = rng.random(); j = rng.randint(1, n)
            if x < .7: h.append({"op": "tick"})
            elif x < .9: h.append({"op": "duty", "i": j, "v": rng.choice([0, 1000, rng.randint(0, 1000)])})
            else: h.append({"op": "tpow", "i": j, "on": rng.random() < .6})
        h.append({"op": "tick"})
        hs.append(h)
    return hs
_AC = dict(module="Actuators", driver="actuators")
prop("C31", title="Wheel torque is limited, delayed, and balanced by its momentum",
  statement="A reaction wheel clips a commanded torque to its maximum, applies it after the dead time through its first-order lag, and does not drive its speed outwards once beyond the speed limit, which can be lowered but not raised above the wheel's maximum. Not driven, it coasts down under friction to a standstill and forgets waiting commands; loss of power ends the drive. The torque on the body always equals minus the rate of change of the wheel's momentum, and each wheel's jitter follows its own imbalance and speed.",
  over=["inputs", "histories"], qtext="all commands, limits, power losses and wheel parameters, in any order, over any number of runs",
  why=TESTS + "Delay, lag, limit and coasting interact over the whole command history.",
  files=["src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/reaction_wheel_ode.cpp", "src/components/real/aocs/reaction_wheel_jitter.cpp", "src/math_physics/control_utilities/first_order_lag.hpp"],
  mech=[("delay, drive and coasting", "ReactionWheel::CalcTorque"), ("torque limit", "ReactionWheel::SetTargetTorque_rw_Nm"), ("speed limit", "ReactionWheel::SetVelocityLimit_rpm, ReactionWheelOde::DerivativeFunction"), ("power loss", "ReactionWheel::PowerOffRoutine"), ("jitter", "ReactionWheelJitter::CalcJitter")],
  observe=["wheel speed, momentum, body torque, drive flag, jitter after each step"],
  note="Every command sequence up to a bounded length over dead times, lags and prescalers; random longer ones over several wheels, by constructor and by settings file. Jitter is checked for one harmonic without structural resonance (magnitude and plane; its phase is random).",
  parts=[dict(_AC, ops=["wheel"], groups=[mc(({"Fam": 1, "Deep": 7}, {"Fam": 1, "Deep": 9}), limit=(4000, 40000)), gen("random", _wheel_random(False)), gen("jitter", _wheel_random(True))])])
prop("C43", title="A thruster delivers its duty after the dead time, along its axis",
  statement="A thruster without random errors delivers the commanded duty times its maximum thrust, after the dead time and through its first-order lag, along its (normalized) direction. The torque is the thruster's position relative to the centre of mass crossed with that thrust. Without power there is neither thrust nor torque.",
  over=["inputs", "histories"], qtext="all duty histories, delays and power losses",
  why=TESTS + "The delay line and the lag depend on the whole command history.",
  files=["src/components/real/propulsion/simple_thruster.cpp", "src/math_physics/control_utilities/first_order_lag.hpp"],
  mech=[("delay and lag", "SimpleThruster::CalcThrustMagnitude"), ("direction and torque", "SimpleThruster::CalcThrust, CalcTorque"), ("power loss", "SimpleThruster::PowerOffRoutine")],
  observe=["thrust and torque vectors after each step"],
  note="Every command sequence up to a bounded length over delays, lags and prescalers; random longer ones with other geometry.",
  parts=[dict(_AC, ops=["thr"], groups=[mc(({"Fam": 2, "Deep": 6}, {"Fam": 2, "Deep": 9}), limit=(4000, 40000)), gen("random", _thr_random)])])
