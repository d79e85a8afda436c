def _slip_random(R, tier, rng):
    hs = []
    for i in range({"quick": 150, "thorough": 3000}[tier]):
        sp = [192, 219, 220, 221]
        def data():
            n = rng.choice([0, 1, 2, 3, 10, 60]); return [rng.choice(sp) if rng.random() < .5 else rng.randint(0, 255) for _ in range(n)]
        h = [{"op": "reset"}]; hd = rng.random() < .5; w = 0
        for _ in range(rng.randint(3, 20)):
            k = rng.random()
            if k < .4: h.append({"op": "send", "d": data(), "h": hd}); w += 1
            elif k < .7 and w: h.append({"op": "recv", "h": hd}); w -= 1
            else: h.append({"op": "raw", "d": data(), "h": rng.random() < .5})
        hs.append(h)
    return hs
def _codec_random(R, tier, rng):
    hs = []; W = {"uint8_t": 1, "int8_t": 1, "uint16_t": 2, "int16_t": 2, "uint32_t": 4, "int32_t": 4, "uint64_t": 8, "int64_t": 8}
    T = list(W) + ["float", "double", "raw", "string", "uint8", "Double"]
    for i in range({"quick": 120, "thorough": 2500}[tier]):
        h = [{"op": "reset"}]; names = ["A", "B", "Cmd_X", "Cmd_Y", "NOP"]
        for _ in range(rng.randint(5, 30)):
            k = rng.random()
            if k < .15: h.append({"op": "copy", "d": _bytes(rng, rng.choice([0, 1, 2, 4, 8, 13]))})
            elif k < .35: h.append({"op": "quant", "n": rng.randint(-100000, 100000), "q": rng.choice([1, 2, 3, 7, 64, 640])})
            elif k < .5: h.append({"op": "arg", "t": rng.choice(["float", "double"]), "n": rng.choice([1, -1]) * rng.choice([0, 1, 3, rng.randint(0, 8388607)]), "k": rng.randint(-20, 30)})
            elif k < .75:
                t = rng.choice(list(W)); h.append({"op": "arg", "t": t, "d": [rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)]) for _ in range(W[t])]})
            elif k < .82:
                h.append({"op": "load", "lines": [rng.choice([{"kind": "head"}, {"kind": "note"}, {"kind": "blank"}] + [{"kind": "cmd", "name": rng.choice(names), "id": rng.choice([0, 1, 10, 255, 4096, 65535]), "hex": rng.random() < .5,
                          "a": [rng.choice(T) for _ in range(rng.randint(0, 6))]} for _ in range(6)]) for _ in range(rng.randint(0, 8))]})
            else: h.append({"op": "ask", "name": rng.choice(names)})
        hs.append(h)
    return hs
_COD = dict(module="Codec", driver="codec")
prop("C20", title="SLIP framing carries any bytes and decoding ends at the frame's end",
  statement="Decoding an encoded frame gives back the original bytes for every byte string, with and without header; an encoded frame holds no frame-end byte except its delimiters, so frames sent one after the other are received in order and whole. Decoding reads only up to the first frame end, drops a stray escape byte, and copes with empty and truncated input.",
  over=["inputs", "histories"], qtext="all byte strings and sequences of frames, well-formed or not",
  why=TESTS + "Escapes next to each other, at the end, or cut off, and empty frames are easily missed.",
  files=["src/utilities/slip.cpp"], mech=[("escaping", "encode_slip, decode_slip")], observe=["returned byte strings; memory errors"],
  note="Exhaustive over all strings of the special bytes up to length 3 (4 in the thorough tier) and short sequences of frames; random longer ones.",
  parts=[dict(_COD, ops=["send", "recv", "raw"], groups=[mc(({"Fam": 1, "MaxLen": 3}, {"Fam": 1, "MaxLen": 4}), limit=(4000, 40000)), gen("random", _slip_random)])])
prop("C21", title="Big-endian copies and quantisation are exact",
  statement="A copy to big-endian order reverses exactly the given number of bytes, none at all for a size of zero, and touches nothing else. Quantising a value gives the largest multiple of the resolution towards zero that does not exceed it, in both precisions.",
  over=["inputs"], qtext="all sizes, values and resolutions within the integer range",
  why=TESTS + "Signs, sizes and boundary values are many.",
  files=["src/utilities/endian.cpp", "src/utilities/quantization.cpp"], mech=[("byte reversal", "endian_memcpy"), ("quantisation", "quantization")], observe=["bytes around and in the destination; quantised values"],
  note="Values are dyadic so that the expected multiples are exact; exhaustive over small ranges plus random ones.",
  parts=[dict(_COD, ops=["copy", "quant"], groups=[only(["copy", "quant"], mc({"Fam": 2, "MaxLen": 2})), only(["copy", "quant"], gen("random", _codec_random))])])
prop("C23", title="Command definitions are read and their arguments encoded as declared",
  statement="Each command line of a command database defines a command with its name, code (decimal or hexadecimal) and argument types, the last definition of a name counts, and headers, comments and blank lines define nothing; an unknown name gives an error entry. An argument is encoded in exactly the width of its type, most significant byte first, two's complement or IEEE 754, over the whole range of the type.",
  over=["inputs"], qtext="all databases and all values of all argument types",
  why=TESTS + "The tests do not cover the encodings at all.",
  files=["src/setting_file_reader/c2a_command_database.cpp"], mech=[("database", "C2aCommandDatabase, C2aCommandInformation"), ("encoding", "DecodeC2aCommandArgument")], observe=["command entries; bytes in and around the parameter buffer"],
  note="The specification derives the bytes independently (integers from their bytes, floating point by IEEE 754 from dyadic values).",
  parts=[dict(_COD, ops=["arg", "load", "ask"], groups=[only(["arg", "load", "ask"], mc({"Fam": 2, "MaxLen": 2})), only(["arg", "load", "ask"], gen("random", _codec_random))])])
