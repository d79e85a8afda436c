TESTS = "The existing tests cover only math_physics (vectors, quaternions, interpolation, file readers); nothing here is reached by any of them. "

# ------------------------------------------------------------------ C04, C05: component scheduling
def _clock_random(kind):
    def fn(R, tier, rng):
        hs = []
        for _ in range({"quick": 60, "thorough": 400}[tier]):
            h = [{"op": "reset", "n": rng.choice([1, 1, 2, 3, 7])}]
            live, ports, regs = {}, [0], []
            nid = 1
            for p in range(1, rng.randint(1, 3)):
                h.append({"op": "port", "p": p, "on": rng.random() < .5}); ports.append(p)
            for _ in range({"quick": 60, "thorough": 200}[tier]):
                x = rng.random()
                life = 0.35 if kind == "life" else 0.1
                if x < life:
                    y = rng.random()
                    if y < .4 or not live:
                        h.append({"op": "new", "c": nid, "pre": rng.choice([0, 1, 2, 3, 5, 10]), "fpre": rng.choice([0, 1, 2, 4]), "fast": rng.random() < .4, "p": rng.choice(ports)})
                        live[nid] = 1; nid += 1
                    elif y < .6:
                        c = rng.choice(sorted(live)); h.append({"op": "copy", "c": c, "d": nid}); live[nid] = 1; nid += 1
                    elif y < .8:
                        c = rng.choice(sorted(live))
                        if live[c] <= 1: h.append({"op": "del", "c": c}); del live[c]
                    elif y < .9:
                        c = rng.choice(sorted(live)); h.append({"op": "reg", "c": c}); live[c] += 1
                    else:
                        c = rng.choice(sorted(live)); h.append({"op": "unreg", "c": c}); live[c] = max(0, live[c] - 1)
                elif x < life + .08 and len(ports) > 1: h.append({"op": "port", "p": rng.choice(ports[1:]), "on": rng.random() < .5})
                elif x < life + .12 and live: h.append({"op": "fast", "c": rng.choice(sorted(live)), "fast": rng.random() < .5})
                elif x < life + .13: h.append({"op": "clear"})
                else: h.append({"op": rng.choice(["tick", "step"])})
            hs.append(h)
        return hs
    return fn

prop("C04", title="Components run exactly at their own rate, in order, only while powered",
  statement="In every component step the scheduler visits the registered components in registration order, and each one runs its main routine in exactly the steps whose index (counted from zero) is a multiple of its prescaler (a prescaler of zero counting as one), receiving that index; a component that asked for fast updates also runs its fast routine at multiples of its fast prescaler. A component whose power port is off runs only its power-off routine at those instants and nothing else, and resumes when power returns. Component steps happen only in the simulation steps whose component flag is raised.",
  over=["histories", "schedules", "configurations"], qtext="all sequences of component creation, power switching, rate changes and steps, for all prescalers",
  why=TESTS + "The guarantee is over every interleaving of rates, power states and steps.",
  files=["src/environment/global/clock_generator.cpp", "src/components/base/component.cpp", "src/components/base/interface_tickable.hpp", "src/components/ports/power_port.cpp"],
  mech=[("tick loop", "ClockGenerator::TickToComponents / UpdateComponents"), ("prescaler and power gate", "Component::Tick, Component::FastTick")],
  observe=["calls of MainRoutine, FastUpdate, PowerOffRoutine with their argument, in order"],
  note="Exhaustive over the bounded specification (2 components, prescalers 0..3, power on/off, fast flag); every explored transition replayed in the real scheduler, plus long random schedules.",
  parts=[dict(module="Clock", driver="clock", ops=["new", "tick", "step", "port", "fast", "clear"], groups=[
    mc(({"Ids": "{1}", "Pres": "{0,2,3}", "MaxTick": 4, "MaxReg": 1, "Periods": "{1,2}"}, {"Ids": "{1,2}", "Pres": "{0,1,2,3}", "MaxTick": 4, "MaxReg": 2, "Periods": "{1,2,3}"}), limit=(6000, 60000)),
    sim({"Ids": "{1,2,3}", "Pres": "{0,1,2,3,5}", "MaxTick": 40, "MaxReg": 4, "Periods": "{1,2,3}"}, (100, 1500), (40, 80)),
    gen("random", _clock_random("rate"))])])

prop("C05", title="A component is scheduled from its construction to its destruction, never outside",
  statement="A component is scheduled by the clock it was built on from construction until destruction, exactly once per step for each time it is registered; a copy of a component is an independent component with the same rates, the same power supply and its own place at the end of the order. Destroying or unregistering a component removes exactly that component (one registration of it) and disturbs neither the order nor the number of runs of the others, so a destroyed component is never run.",
  over=["histories"], qtext="all sequences of create, copy, destroy, register, unregister and step",
  why=TESTS + "Dangling or duplicated registrations appear only after particular construct/copy/destroy orders.",
  files=["src/components/base/component.cpp", "src/environment/global/clock_generator.cpp"],
  mech=[("registration in constructors, removal in destructor", "Component constructors, copy constructor, destructor"), ("first match removal", "ClockGenerator::RemoveComponent")],
  observe=["calls made in each tick"],
  note="Exhaustive over the bounded specification (2 to 3 components, up to 3 registrations); every explored transition replayed in the real code, plus long random lifecycles.",
  parts=[dict(module="Clock", driver="clock", ops=["new", "copy", "del", "reg", "unreg", "tick"], groups=[
    mc(({"Ids": "{1,2}", "Pres": "{1,2}", "MaxTick": 2, "MaxReg": 2, "Periods": "{1}"}, {"Ids": "{1,2,3}", "Pres": "{1,2}", "MaxTick": 2, "MaxReg": 3, "Periods": "{1}"}), limit=(6000, 60000)),
    sim({"Ids": "{1,2,3,4}", "Pres": "{1,2}", "MaxTick": 30, "MaxReg": 6, "Periods": "{1}"}, (100, 1500), (40, 80)),
    gen("random", _clock_random("life"))])])
