def _obc_random(fams):
    def fn(R, tier, rng):
        hs = []
        for i in range({"quick": 120, "thorough": 2000}[tier]):
            kind = rng.randint(0, 1); fam = rng.choice(fams)
            h = [{"op": "reset", "kind": kind}]; wr = {}; tg = {}; gc = {}
            P = lambda: rng.randint(1, 3)
            B = lambda m: _bytes(rng, rng.randint(0, m))
            for _ in range(rng.randint(8, 70)):
                k = rng.random()
                if fam == 1:
                    if k < .15: h.append({"op": "conn", "p": P(), "n": rng.choice([1, 2, 5, 16, 300, 0])})
                    elif k < .22: h.append({"op": "close", "p": P()})
                    elif k < .6: h.append({"op": rng.choice(["sfo", "sfc"]), "p": P(), "d": B(rng.choice([4, 20])), "off": rng.choice([0, 0, 3])})
                    else: h.append({"op": rng.choice(["rbc", "rbo"]), "p": P(), "n": rng.randint(0, 20), "off": rng.choice([0, 0, 3])})
                elif fam == 2:
                    if (k < .15 or not wr) and len(wr) < 4:
                        w = rng.choice([x for x in range(1, 5) if x not in wr]); tx, rx = rng.choice([1, 4, 8, 33, 1024, 3000]), rng.choice([1, 4, 8, 33, 1024, 3000])
                        wr[w] = (min(tx, 1024), min(rx, 1024)); h.append({"op": "wnew", "w": w, "p": P(), "tx": tx, "rx": rx})
                    elif k < .22: w = rng.choice(sorted(wr)); del wr[w]; h.append({"op": "wdel", "w": w})
                    elif k < .45:
                        w = rng.choice(sorted(wr)); s = wr[w][1]; off = rng.choice([0, 0, 1, s, s + 1, s - 1]); off = max(0, off)
                        h.append({"op": "wrecv", "w": w, "off": off, "n": max(1, rng.choice([1, 3, s - off, s - off + 1, s, 10, -1 % 2**31]))})
                    elif k < .7:
                        w = rng.choice(sorted(wr)); s = wr[w][0]; off = max(0, rng.choice([0, 0, 1, s, s + 1, s - 1])); n = max(0, rng.choice([0, 1, 3, s - off, s - off + 1, 7]))
                        h.append({"op": "wsend", "w": w, "off": off, "d": _bytes(rng, min(n, 1100))})
                    elif k < .8: h.append({"op": "sfo", "p": P(), "d": B(12), "off": 0})
                    elif k < .97: h.append({"op": "rbo", "p": P(), "n": rng.randint(0, 40), "off": 0})
                    else: h.append({"op": "close", "p": P()})
                elif fam == 3:
                    A = rng.choice([1, 7, 0x50]); reg = rng.choice([0, 1, 2, 3, 250, 253, 254, 255]); n = rng.choice([0, 1, 2, 3, 6])
                    if k < .08: h.append({"op": "iconn", "p": P(), "a": A})
                    elif k < .11: h.append({"op": "iclose", "p": P()})
                    elif k < .25: h.append({"op": "icw", "p": P(), "a": A, "reg": reg, "d": _bytes(rng, n)})
                    elif k < .4: h.append({"op": "icr", "p": P(), "a": A, "reg": reg, "n": n})
                    elif k < .45: h.append({"op": "icc", "p": P(), "a": A, "n": n})
                    elif k < .6 and kind:
                        d = [reg] + _bytes(rng, n); z = rng.random()
                        h.append({"op": "owr", "p": P(), "a": A, "d": d} if z < .4 else {"op": "ord", "p": P(), "a": A, "n": n} if z < .7 else {"op": "ocmd", "p": P(), "a": A, "d": d[rng.randint(0, 1):]})
                    elif (k < .65 or not tg) and len(tg) < 4: t = rng.choice([x for x in range(1, 6) if x not in tg]); tg[t] = 1; h.append({"op": "tnew", "t": t, "p": P(), "a": A})
                    elif k < .69 and tg: t = rng.choice(sorted(tg)); del tg[t]; h.append({"op": "tdel", "t": t})
                    elif k < .72 and tg: t = rng.choice(sorted(tg)); u = rng.choice([x for x in range(1, 6) if x not in tg]); del tg[t]; tg[u] = 1; h.append({"op": "tmove", "t": t, "u": u})
                    elif k < .83 and tg: h.append({"op": "tw", "t": rng.choice(sorted(tg)), "reg": reg, "d": _bytes(rng, n)})
                    elif k < .95 and tg: h.append({"op": "tr", "t": rng.choice(sorted(tg)), "reg": reg, "n": n})
                    elif tg: h.append({"op": "tc", "t": rng.choice(sorted(tg)), "n": n})
                else:
                    if k < .15: h.append({"op": "gconn", "p": P()})
                    elif k < .4: h.append({"op": "gpw", "p": P(), "v": rng.random() < .5})
                    elif k < .6: h.append({"op": "gpr", "p": P()})
                    elif (k < .7 or not gc) and len(gc) < 3: g = rng.choice([x for x in range(1, 4) if x not in gc]); gc[g] = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]; h.append({"op": "gnew", "g": g, "ps": gc[g]})
                    elif gc:
                        g = rng.choice(sorted(gc)); i = rng.randint(0, len(gc[g]) - 1)
                        h.append({"op": "gw", "g": g, "i": i, "v": rng.random() < .5} if k < .85 else {"op": "gr", "g": g, "i": i})
            hs.append(h)
        return hs
    return fn
_OBC = dict(module="Obc", driver="obc")
_OF = ["src/components/real/cdh/on_board_computer.cpp", "src/components/real/cdh/on_board_computer_with_c2a.cpp"]
_omc = lambda fam, kinds="{0,1}", lim=(3000, 30000), tag=None: mc({"Fam": fam, "Ports": "{1,2}", "Kinds": kinds}, tag=tag or "mc%d" % fam, limit=lim, constraint=None)
_osim = lambda fam, ports="{1,2,3}": sim({"Fam": fam, "Ports": ports, "Kinds": "{0,1}"}, (60, 1000), (25, 50), tag="sim%d" % fam, limit=(2500, 20000))
prop("C16", title="Ports of the on board computer exist from connect to close and never mix",
  statement="Connecting a UART or GPIO port number that is free succeeds and one in use is refused without disturbing it; closing a UART or I2C port succeeds exactly when it is open, and every use of a port that is not open fails without any effect and without a crash. Data, registers and levels of one port never appear on another port or another device address, consecutive bytes of a register access go to consecutive registers, and a port opened again starts empty. The C2A flavour of the computer behaves identically, and its flight software interface works on those same ports.",
  over=["histories", "inputs"], qtext="all sequences of connect, close and transfer operations on any ports of both flavours",
  why=TESTS + "Wrong sharing, leaks and reuse after closing depend on the whole history of the ports.",
  files=_OF, mech=[("port tables", "OnBoardComputer"), ("static port tables", "ObcWithC2a")], observe=["return values, bytes, register values, levels"],
  note="Exhaustive over two port numbers and tiny buffers; every explored transition replayed on both classes; random histories over three ports.",
  parts=[dict(_OBC, ops=["conn", "close", "sfo", "sfc", "rbc", "rbo", "iconn", "iclose", "icw", "icr", "icc", "owr", "ord", "ocmd", "gconn", "gpw", "gpr"],
    groups=[_omc(1), _omc(4), _osim(1), _osim(3), _osim(4), gen("random", _obc_random([1, 3, 3, 4]))])])
prop("C19", title="A component talks to the computer only through its own port and within its buffers",
  statement="A component connected over UART hands its parser exactly the bytes that arrived on its port (and is not called when none did), puts exactly its telemetry bytes on the line, and refuses any transfer that would not fit its own buffer without sending, receiving or overwriting anything. Of components sharing a port number only the first is connected, and only a connected one closes the port when it is destroyed. A component connected over I2C or GPIO reads and writes precisely the registers and pins of its own address and port numbers; moving it to another object keeps the port open.",
  over=["histories", "inputs"], qtext="all histories of components with any buffer sizes, offsets and lengths",
  why=TESTS + "Buffer overruns and port ownership show only for particular sizes and destruction orders.",
  files=["src/components/base/uart_communication_with_obc.cpp", "src/components/base/i2c_target_communication_with_obc.cpp", "src/components/base/gpio_connection_with_obc.cpp"],
  mech=[("framing", "UartCommunicationWithObc::ReceiveCommand, SendTelemetry"), ("ownership", "constructors and destructors")], observe=["parser calls, bytes, return values (memory errors abort the driver)"],
  note="Built with address sanitizer; exhaustive over two ports and small buffers, random histories with real sizes.",
  parts=[dict(_OBC, ops=["wnew", "wdel", "wrecv", "wsend", "tnew", "tdel", "tmove", "tw", "tr", "tc", "gnew", "gw", "gr"],
    groups=[mc({"Fam": 2, "Ports": "{1}", "Kinds": "{0,1}"}, tag="mc2", limit=(3000, 30000)), _osim(2, "{1,2}"), _osim(3, "{1,2}"), _osim(4), gen("random", _obc_random([2, 2, 3, 4]))])])
