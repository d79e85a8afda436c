def _bytes(rng, n): return [rng.randint(0, 255) for _ in range(n)]
def _uart_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 2500}[tier]):
        cap = [rng.choice([1, 2, 3, 5, 16, 64, 0]), rng.choice([1, 2, 4, 7, 32, 1024])]
        if rng.random() < .5: cap.reverse()
        h = [{"op": "reset", "rx": cap[0], "tx": cap[1], "max": 255, "pins": 1}]
        for _ in range(rng.randint(5, 60)):
            c = cap[1 if rng.random() < .5 else 0]; m = rng.choice([3, (c or 1024) // 2 + 1, (c or 1024) + 2]); m = min(m, 700)
            tx = rng.random() < .5
            if rng.random() < .5: h.append({"op": "wtx" if tx else "wrx", "d": _bytes(rng, rng.randint(0, m)), "off": rng.choice([0, 0, 1, 9])})
            else: h.append({"op": "rtx" if tx else "rrx", "n": rng.randint(0, m), "off": rng.choice([0, 0, 1, 9])})
        hs.append(h)
    return hs
def _i2c_random(R, tier, rng):
    hs = []
    for i in range({"quick": 120, "thorough": 2000}[tier]):
        mx = rng.choice([255, 255, 1, 2, 16, 200])
        h = [{"op": "reset", "rx": 4, "tx": 4, "max": mx, "pins": 1}]
        A = rng.sample(range(256), 3)
        reg = lambda: rng.choice([rng.randint(0, 255), rng.randint(0, 3), mx % 256, max(0, mx - 1), 255, 254])
        for _ in range(rng.randint(5, 60)):
            a = rng.choice(A); k = rng.random()
            if k < .1: h.append({"op": "dev", "a": a})
            elif k < .2: h.append({"op": "point", "a": a, "reg": reg()})
            elif k < .4: h.append({"op": "write", "a": a, "reg": reg(), "v": rng.randint(0, 255)})
            elif k < .6: h += [{"op": "next", "a": a}] * rng.randint(1, 6)
            elif k < .75: h.append({"op": "read", "a": a, "reg": reg()})
            elif k < .9:
                n = rng.choice([0, 1, 1, 2, 2, 3, 10, 255]); d = _bytes(rng, n)
                if d: d[0] = reg()
                h.append({"op": "wcmd", "a": a, "d": d})
            else: h.append({"op": "rcmd", "a": a, "n": rng.choice([0, 1, 3, 20, 255])})
        hs.append(h)
    return hs
def _gpio_random(R, tier, rng):
    hs = []
    for i in range({"quick": 60, "thorough": 600}[tier]):
        n = rng.randint(1, 6)
        hs.append([{"op": "reset", "rx": 4, "tx": 4, "max": 255, "pins": n}] + [{"op": "pin", "p": rng.randint(1, n), "v": rng.random() < .5} for _ in range(rng.randint(5, 60))])
    return hs
_BUS = dict(module="Bus", driver="bus")
prop("C15", title="A UART line delivers every byte once, in order, and both directions apart",
  statement="Bytes written into one direction of a UART port are read on the other side unaltered, in order and exactly once as long as fewer bytes than the buffer size are waiting; a read returns the number of bytes actually available (at most the number asked for), stores them from the requested offset on and touches nothing else. An overflow of one direction discards old data of that direction only: what remains readable is still the newest part of the stream, and the other direction and other ports are unaffected.",
  over=["histories", "inputs"], qtext="all sequences of writes and reads of any length and offset, for all buffer sizes",
  why=TESTS + "Wrap-around errors need particular combinations of sizes and positions.",
  files=["src/components/ports/uart_port.cpp", "src/utilities/ring_buffer.cpp"], mech=[("ring buffer", "RingBuffer::Write, RingBuffer::Read"), ("directions", "UartPort")],
  observe=["return values and bytes read, memory around the destination"],
  note="Exhaustive over small capacities; every explored transition replayed in the real class; random sequences with sizes up to the default of 1024.",
  parts=[dict(_BUS, ops=["wtx", "rtx", "wrx", "rrx"], groups=[
    mc(({"Fam": 1, "Caps": "{1,2,3}", "MaxLen": 4, "MaxReg": 2, "Vals": "{5}"}, {"Fam": 1, "Caps": "{1,2,3,4,5}", "MaxLen": 6, "MaxReg": 2, "Vals": "{5}"}), limit=(6000, 60000)),
    sim({"Fam": 1, "Caps": "{1,2,3,5}", "MaxLen": 6, "MaxReg": 2, "Vals": "{5}"}, (100, 1500), (30, 60)),
    gen("random", _uart_random)])])
prop("C17", title="I2C registers keep what was written to them, per device address",
  statement="A value written to a register of an I2C device is what every later read of that register of that device address returns until it is written again or the device is connected anew (registers start at zero); other addresses and registers never change. Reading on without a register address continues from the register last addressed and wraps at the end of the register file, registers outside the file are refused, a one-byte command selects a register, a two-byte command writes one, and every command can be read back.",
  over=["histories", "inputs"], qtext="all sequences of register and command accesses",
  why=TESTS + "Register pointer and address mix-ups show only after particular access sequences.",
  files=["src/components/ports/i2c_port.cpp"], mech=[("register map and pointer", "I2cPort")], observe=["return values of reads and writes"],
  note="Exhaustive over a register file of 3 and two devices; random sequences over the full register file.",
  parts=[dict(_BUS, ops=["dev", "point", "write", "next", "read", "wcmd", "rcmd"], groups=[
    mc(({"Fam": 2, "Caps": "{2}", "MaxLen": 2, "MaxReg": 2, "Vals": "{5}"}, {"Fam": 2, "Caps": "{2}", "MaxLen": 2, "MaxReg": 3, "Vals": "{5}"}), limit=(5000, 50000)),
    sim({"Fam": 2, "Caps": "{2}", "MaxLen": 2, "MaxReg": 3, "Vals": "{5,6}"}, (100, 1500), (30, 60)),
    gen("random", _i2c_random)])])
prop("C18", title="A GPIO pin holds its level and reports exactly its edges",
  statement="Reading a GPIO pin returns the level last written to it (low at first), and no write to another pin changes it. The component attached to a pin is notified exactly once for each write that changes the level, with that pin and the new level, and never otherwise.",
  over=["histories"], qtext="all sequences of writes to any pins",
  why=TESTS + "Spurious or missing edge notifications depend on the history of levels.",
  files=["src/components/ports/gpio_port.cpp"], mech=[("edge detection", "GpioPort::DigitalWrite")], observe=["levels of all pins, notifications"],
  note="Exhaustive over three pins; random long sequences.",
  parts=[dict(_BUS, ops=["pin"], groups=[mc({"Fam": 3, "Caps": "{2}", "MaxLen": 2, "MaxReg": 2, "Vals": "{5}"}),
    sim({"Fam": 3, "Caps": "{2}", "MaxLen": 2, "MaxReg": 2, "Vals": "{5}"}, (50, 500), (30, 60)), gen("random", _gpio_random)])])
