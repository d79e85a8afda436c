def _wings_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 3000}[tier]):
        def line():
            k = rng.choice(["rt", "rt", "tl", "wait", "comment", "blank", "check", "let", "brace"])
            l = {"kind": k, "dot": rng.randint(0, 1), "sp": rng.randint(0, 1), "note": int(rng.random() < .3)}
            if k in ("rt", "tl"):
                l["c"] = rng.choice(["NOP", "SET", "BIG"])
                l["v"] = {"NOP": [], "SET": [rng.randint(0, 255), rng.randint(-32768, 32767)], "BIG": [rng.randint(0, 2**31 - 1), rng.randint(-2**31 + 1, 2**31 - 1), rng.randint(0, 255)]}[l["c"]]
                l["ti"] = rng.choice([0, 1, 1000000, 2147483647])
            elif k == "wait": l["t"] = rng.choice([0, 1, 4, 8, 15, 16, 17, 40])
            elif k == "blank": l["n"] = rng.choice([0, 1, 2, 3, 4, 8])
            return l
        h = [{"op": "reset", "en": rng.random() < .9, "pre": rng.choice([0, 1, 1, 2, 3]), "step": rng.choice([1, 4, 16]), "lines": [line() for _ in range(rng.randint(0, 12))]}]
        hs.append(h + [{"op": "tick"}] * rng.randint(5, 60))
    return hs
prop("C22", title="Operation files are replayed line by line, in order and on time",
  statement="An enabled operation file sender executes at most one line per run, in file order, each once, sending a command line's code and encoded arguments at once or with its time tag; comments, blank lines and indentation count for nothing, and lines it does not support send nothing. A wait delays the next line by at least its time, counted in the sender's own runs, and no longer than one run more; after the last line, or while disabled, nothing is sent.",
  over=["inputs", "histories"], qtext="all operation files, rates and wait times",
  why=TESTS + "Skipped or repeated lines and wrong waits depend on the whole file.",
  files=["src/setting_file_reader/wings_operation_file.cpp", "src/components/real/communication/wings_command_sender_to_c2a.cpp"],
  mech=[("line reader", "WingsOperationFile"), ("line execution", "WingsCommandSenderToC2a::MainRoutine, ExecuteCommandLine, AnalyzeC2aCommand")], observe=["calls of the flight software's command registration (recorded by stand-ins)"],
  note="Exhaustive over files of up to 2 (quick) or 3 lines from a pool of 8 line kinds; random longer ones. The flight software is absent, its two entry points are stand-ins.",
  parts=[dict(module="Wings", driver="wings", ops=["tick"], groups=[mc(({"MaxLines": 2, "MaxTick": 12}, {"MaxLines": 3, "MaxTick": 16})), gen("random", _wings_random)])])
