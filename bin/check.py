#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]
Decides one property: exit 0 (held on everything explored) or exit 1 with `VIOLATION property=<id> replay=<path>`."""
import argparse, hashlib, importlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    P = props.PROPS[a.property]
    runs = []
    viol = None
    try:
        if a.replay:
            v = json.load(open(a.replay))
            R = vt.Run(a.property, v["module"], v["driver"], a.tier, seed); runs.append(R)
            R.build()
            v2 = R.confirm([v["history"]], "replay")
            if v2 is None: print("replay: the specification accepts this history now"); return 0
            print("replay: still rejected\n observed %s\n expected %s" % (json.dumps(v2["observed"]), v2["expected"]))
            print("VIOLATION property=%s replay=%s" % (a.property, a.replay)); return 1
        t0 = time.time()
        for part in P["parts"]:
            R = vt.Run(a.property, part["module"], part["driver"], a.tier, seed); runs.append(R)
            R.build()
            for name, fn in part["groups"]:
                rng = random.Random("%s/%s/%d" % (a.property, name, seed))
                hs = fn(R, a.tier, rng)
                if hs is None: continue
                t1 = time.time()
                hs = [[dict([("op", e["op"])] + [kv for kv in e.items() if kv[0] != "op"]) for e in h] for h in hs]
                viol = R.conform(hs, name)
                print("[%s] %s/%s: %d histories, %d operations, %.1fs" % (a.property, part["module"], name, len(hs), sum(map(len, hs)), time.time() - t1), flush=True)
                if viol: break
            if viol: break
            live = part.get("live", True)
            if live and not viol:
                last = hs[-1] if hs else None
                if last: R.liveness([last], vt.corrupt_last if live is True else live)
            need = set(part.get("ops", ())) - set(R.ops)
            if need: raise vt.CheckError("operations never exercised: %s" % sorted(need))
        if viol:
            os.makedirs(os.path.join(vt.VERIF, "replays"), exist_ok=True)
            txt = json.dumps(viol, indent=1)
            path = os.path.join("replays", "%s-%s.json" % (a.property, hashlib.sha1(txt.encode()).hexdigest()[:10]))
            open(os.path.join(vt.VERIF, path), "w").write(txt)
            print("history (%d operations), last: %s" % (len(viol["history"]), json.dumps(viol["event"])))
            print("observed: %s" % json.dumps(viol["observed"])[:1500])
            print("expected: %s" % str(viol["expected"])[:1500])
        for k in props.known(a.property):
            print("KNOWN-FINDING: property=%s %s" % (a.property, k))
        ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": P.get("level", "model_checking"),
              "coverage": {"states": sum(r.states for r in runs), "transitions": sum(r.transitions for r in runs),
                           "traces_validated_against_impl": sum(r.validated for r in runs),
                           "events_validated_against_impl": sum(r.events for r in runs),
                           "operations": {r.module: r.ops for r in runs},
                           "exploration": [dict(module=r.module, **m) for r in runs for m in r.mcinfo],
                           "binding": [n for r in runs for n in r.notes],
                           "samples": [s for r in runs for s in r.samples][:6]},
              "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(vt.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(vt.VERIF, "evidence", a.property + ".json"), "w"), indent=1)
        if viol:
            print("VIOLATION property=%s replay=%s" % (a.property, path)); return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (a.property, ev["coverage"]["states"], ev["coverage"]["transitions"],
              ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["events_validated_against_impl"], ev["wall_s"]))
        return 0
    except vt.CheckError as x:
        print("CHECK ERROR: %s" % x); return 3
    except Exception:
        traceback.print_exc(); return 4
    finally:
        for r in runs: r.close()

if __name__ == "__main__":
    sys.exit(main())
