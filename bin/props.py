"""The registry of properties: statement, anchors, and the groups of histories each check explores and replays.
`python3 bin/props.py` rewrites properties.jsonl and MANIFEST.json from it."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
PROPS = {}
def prop(id, **kw): PROPS[id] = kw
def mc(consts, tag="mc", **kw):
    """A group: exhaustive exploration; consts may differ per tier (quick, thorough)."""
    def fn(R, tier, rng):
        c = consts[1] if isinstance(consts, tuple) and tier == "thorough" else consts[0] if isinstance(consts, tuple) else consts
        k = dict(kw)
        if isinstance(k.get("limit"), tuple): k["limit"] = k["limit"][tier == "thorough"]
        return R.explore(c, tag=tag, **k)
    return (tag, fn)
def sim(consts, num, depth, tag="sim", **KW):
    def fn(R, tier, rng):
        c = consts[1] if isinstance(consts, tuple) and tier == "thorough" else consts[0] if isinstance(consts, tuple) else consts
        kw = {k: (v[tier == "thorough"] if k == "limit" and isinstance(v, tuple) else v) for k, v in KW.items()}
        n = num[tier == "thorough"] if isinstance(num, tuple) else num
        d = depth[tier == "thorough"] if isinstance(depth, tuple) else depth
        kw.setdefault("limit", 6000 if tier == "thorough" else 600)
        return R.explore(c, tag=tag, num=n, depth=d, **kw)
    return (tag, fn)
def gen(tag, fn): return (tag, fn)
def only(ops, group):
    """Keeps only the given operations of a group's histories (where the others neither change their state nor are needed)."""
    tag, fn = group
    def f(R, tier, rng):
        hs = fn(R, tier, rng); seen = set(); o = []
        for h in hs or []:
            h = [e for e in h if e["op"] == "reset" or e["op"] in ops]
            k = json.dumps(h)
            if len(h) > 1 and k not in seen: seen.add(k); o.append(h)
        return o
    return (tag, f)
def known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p): return []
    return [k["what"] for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

for f in sorted(glob.glob(os.path.join(HERE, "p_*.py"))):
    exec(compile(open(f).read(), f, "exec"), globals())

def emit():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for i in sorted(PROPS):
            P = PROPS[i]
            f.write(json.dumps({"id": i, "title": P["title"], "statement": P["statement"],
                "quantifier": {"over": P["over"], "text": P["qtext"]}, "why_tests_cant": P["why"],
                "anchors": {"files": P["files"], "mechanism": [{"name": n, "where": w} for n, w in P["mech"]],
                            "observe_at": P.get("observe", []), "hook_needed": None}}) + "\n")
    checks = []
    for i in sorted(PROPS):
        P = PROPS[i]
        if "parts" not in P: continue
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "technique": P.get("technique", "TLA+ specification model-checked by TLC; its behaviours replayed in the real code and the recorded traces validated by TLC"),
                       "level": P.get("level", "model_checking"), "level_note": P["note"]})
    na = [{"property": i, "reason": PROPS[i].get("na", "check not built yet")} for i in sorted(PROPS) if "parts" not in PROPS[i]]
    json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

def design():
    """Rewrites the generated parts of DESIGN.md."""
    p = os.path.join(VERIF, "DESIGN.md"); s = open(p).read()
    def put(s, name, text):
        a, b = "<!-- %s: generated by bin/props.py -->" % name, "<!-- end of %s -->" % name
        return s[:s.index(a) + len(a)] + "\n" + text + s[s.index(b):]
    t = ""
    for i in sorted(PROPS):
        P = PROPS[i]
        if "parts" not in P: continue
        t += "### %s %s\n" % (i, P["title"])
        t += "Anchored in " + "; ".join("%s (`%s`)" % m for m in P["mech"]) + ".  Observed: " + ", ".join(P.get("observe", [])) + ".\n"
        for q in P["parts"]:
            t += "Specification `spec/%s.tla`, exploration `spec/MC_%s.tla`, driver `harness/%s.cpp`; groups: %s%s.\n" % (
                q["module"], q["module"], q["driver"], ", ".join(g[0] for g in q["groups"]), "; liveness" if q.get("live") else "")
        t += P["note"] + ("  " + P["design"] if P.get("design") else "") + "\n\n"
    s = put(s, "properties", t)
    t = "| planted change | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        t += "| %s: %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["property"], m["needs"], m.get("caught_by", m["property"] + " quick"))
    s = put(s, "seeded", t)
    open(p, "w").write(s)

if __name__ == "__main__":
    emit()
    if os.path.isdir(os.path.join(VERIF, "seeded")): design()
