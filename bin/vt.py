"""Model-based verification engine: TLC exploration of a specification, replay of its behaviours in the real code
(harness drivers), and validation by TLC of the traces recorded from the real code.

Per property, spec/<M>.tla holds the state machine (actions `Do(e)` over operation records e, and the observable
result `out`), spec/MC_<M>.tla the bounded exploration (set `Ops` of operations enabled in a state, invariants), and
spec/TR_<M>.tla is generated here: it extends <M> and consumes the recorded trace one line per action."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as B
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXINT = 2147483647

class CheckError(Exception): pass

def tlc(workdir, module, cfg, args=(), env=None, workers=1, timeout=800, heap="2g", simulate=False):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=1" if workers == 1 and not simulate else "-XX:+TieredCompilation",
           "-Xss16m", "-Djava.io.tmpdir=" + workdir, "-Xmx" + heap, "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           "-metadir", os.path.join(workdir, "meta_" + module + str(random.random())[2:8]), "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return 124, o.decode(errors="replace") if isinstance(o, bytes) else o

def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m: return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m: return int(m[-1].replace(",", "")), 0
    return 0, 0

TRACE_TLA = """---- MODULE TR_%(m)s ----
EXTENDS %(m)s, Json, IOUtils, TLC, TLCExt
Tr == ndJsonDeserialize(IOEnv.VT_TRACE)
VARIABLE trl
TInit == Init /\\ trl = 1
TNext == /\\ trl <= Len(Tr)
         /\\ Do(Tr[trl])
         /\\ Match(Tr[trl], out') = TRUE
         /\\ trl' = trl + 1
TSpec == TInit /\\ [][TNext]_<<vars, trl>>
\\* Diagnosis of a rejected history: the last event is taken without comparing its observation, which is printed.
DNext == /\\ trl <= Len(Tr)
         /\\ Do(Tr[trl])
         /\\ IF trl = Len(Tr) THEN PrintT(<<"EXPECTED", ToJson(out')>>) ELSE Match(Tr[trl], out') = TRUE
         /\\ trl' = trl + 1
DSpec == TInit /\\ [][DNext]_<<vars, trl>>
Post == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Tr)>>)
====
"""

class Run:
    def __init__(self, prop, module, driver, tier, seed, mc=None, env=None):
        self.prop, self.module, self.driver, self.tier, self.seed = prop, module, driver, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.states = self.transitions = self.validated = self.events = 0
        self.samples, self.ops, self.notes = [], {}, []
        self.mcinfo = []
        self.known = []
        self.exe = None
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), self.work)
        open(os.path.join(self.work, "TR_%s.tla" % module), "w").write(TRACE_TLA % {"m": module})
        self.ddir = os.path.join(self.work, "drv"); os.makedirs(self.ddir)

    def close(self): shutil.rmtree(self.work, ignore_errors=True)

    def build(self):
        self.exe, out = B.build(self.driver)
        if self.exe is None: raise CheckError("build failed\n" + out[-4000:])

    # ---- model checking of the specification; returns the operation histories TLC emitted
    def explore(self, consts=None, invariants=("Inv",), emit="transitions", depth=None, num=None, tag="mc", timeout=600, constraint=None, view="View", limit=None, properties=()):
        m = "MC_" + self.module
        cfg = os.path.join(self.work, "%s_%s.cfg" % (m, tag))
        lines = ["INIT MCInit", "NEXT MCNext"] if emit != "none" else ["INIT MCInit", "NEXT MCNext"]
        if invariants: lines.append("INVARIANTS " + " ".join(invariants))
        for p in properties: lines.append("PROPERTY " + p)
        if consts: lines += ["CONSTANTS"] + ["  %s = %s" % kv for kv in consts.items()]
        gen = os.path.join(self.work, "gen_%s.txt" % tag)
        args = []
        if num:   # simulation: random behaviours of the given depth
            lines.append("INVARIANT EmitLong")
            args = ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(self.seed)]
        else:
            if view: lines.append("VIEW " + view)
            if constraint: lines.append("CONSTRAINT " + constraint)
            if emit == "transitions": lines.append("ACTION_CONSTRAINT EmitStep")
        open(cfg, "w").write("\n".join(lines) + "\n")
        rc, out = tlc(self.work, m, cfg, args, env={"VT_GEN": gen, "VT_LEN": str(depth or 0)}, workers=1, timeout=timeout, simulate=bool(num), heap="4g")
        if rc != 0:
            raise CheckError("TLC on %s (%s): exit %d\n%s" % (m, tag, rc, out[out.find("Error:"):][:1500] + "\n...\n" + out[-2500:]))
        g, d = stats(out)
        self.transitions += g; self.states += d
        self.mcinfo.append({"run": tag, "generated": g, "distinct": d, "constants": consts or {}, "mode": "simulate num=%s depth=%s" % (num, depth) if num else "exhaustive"})
        hs = []
        if os.path.exists(gen):
            for ln in open(gen):
                ln = ln.strip()
                if ln: hs.append(json.loads(ln))
        if limit and len(hs) > limit:
            hs = random.Random(self.seed).sample(hs, limit)
        return hs

    # ---- run the real code over histories; returns list of recorded histories (crash -> a __crash event)
    def execute(self, hists, tag="t", timeout=300):
        tag = re.sub(r"\W", "_", tag) + str(random.random())[2:8]
        script, trace = os.path.join(self.work, tag + ".script"), os.path.join(self.work, tag + ".trace")
        with open(script, "w") as f:
            for h in hists:
                for e in h: f.write(json.dumps(e, separators=(",", ":")) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=88:max_malloc_fill_size=1000000:detect_odr_violation=0:handle_abort=1:allocator_may_return_null=1",
                   VT_DIR=self.ddir)
        errf = os.path.join(self.work, tag + ".err")
        shutil.rmtree(self.ddir, ignore_errors=True); os.makedirs(self.ddir)
        try:
            r = subprocess.run([self.exe, script, trace], cwd=self.ddir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(errf, "w"), timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        if rc in (96, 97): raise CheckError("harness: " + open(errf).read()[-500:])
        lines = open(trace).read().split("\n")[:-1] if os.path.exists(trace) else []
        n = sum(len(h) for h in hists)
        if rc != 0 and len(lines) < n:
            err = open(errf, errors="replace").read()
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|Assertion[^\n]*)", err)
            self.crash = "timeout" if rc == -999 else "exit %d %s" % (rc, m.group(1) if m else "")
            at_reset = [e for h in hists for e in h[:1] + [None] * (len(h) - 1)][len(lines)] is not None
            lines.append('{"op":"reset__crash","r":{}}' if at_reset else '{"op":"__crash","r":{}}')
        elif len(lines) != n: raise CheckError("harness wrote %d of %d lines rc=%d" % (len(lines), n, rc))
        if os.path.exists(script): os.remove(script)
        return lines

    # ---- TLC: is the recorded trace a behaviour of the specification?  returns number of consumed lines
    def tlc_trace(self, lines, tag, diag=False, timeout=700):
        p = os.path.join(self.work, "tr_%s.ndjson" % tag)
        open(p, "w").write("\n".join(lines) + "\n")
        cfg = os.path.join(self.work, "tr_%s.cfg" % tag)
        open(cfg, "w").write("SPECIFICATION %s\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n" % ("DSpec" if diag else "TSpec"))
        rc, out = tlc(self.work, "TR_" + self.module, cfg, env={"VT_TRACE": p}, timeout=timeout)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        g, d = stats(out)
        if not m and not diag and d >= 1 and re.search(r"^Error: (Evaluating|The (following|first)|TLC was unable|Attempted|Overflow|In evaluation|TLC threw)", out, re.M):
            # an observation TLC cannot even evaluate against the specification (say, out of range): rejected, provided the
            # specification itself takes this step without trouble
            self.tlc_trace(lines[:d], tag + "x", diag=True)
            return d - 1, g
        if not m:
            raise CheckError("TLC on trace (%s): exit %d\n%s" % (tag, rc, out[out.find("Error:"):][:1500] + "\n...\n" + out[-2500:]))
        if diag: return out
        os.remove(p)
        return int(m.group(1)), g

    def check_lines(self, lines, tag):
        """Split at reset boundaries into chunks, validate in parallel; returns (list of failing (hist_start, index))."""
        starts = [i for i, l in enumerate(lines) if l.startswith('{"op":"reset')]
        if not starts or starts[0] != 0: raise CheckError("trace does not start with reset")
        nchunk = 1 if len(lines) < 3000 else min(8, len(lines) // 1500)
        bounds, per = [0], len(lines) / nchunk
        for s in starts:
            if s - bounds[-1] >= per: bounds.append(s)
        bounds.append(len(lines))
        jobs = [(bounds[i], bounds[i + 1]) for i in range(len(bounds) - 1)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda ab: self.tlc_trace(lines[ab[0]:ab[1]], "%s_%d" % (tag, ab[0])), jobs))
        fails = []
        for (a, b), (c, g) in zip(jobs, res):
            self.transitions += g
            if c < b - a:
                k = a + c
                s = max(x for x in starts if x <= k)
                fails.append((s, k))
        return fails

    def conform(self, hists, tag):
        """Replay histories in the real code and validate; returns None or a violation dict."""
        hists = [h for h in hists if h]
        for h in hists:
            if h[0].get("op") != "reset": raise CheckError("history without reset")
        if not hists: return None
        lines = self.execute(hists, tag)
        fails = self.check_lines(lines, tag)
        if not fails:
            self.validated += len(hists); self.events += len(lines)
            for l in lines:
                op = l[7:l.index('"', 7)]
                self.ops[op] = self.ops.get(op, 0) + 1
            if len(self.samples) < 4: 
                j = min(range(len(hists)), key=lambda i: abs(len(hists[i]) - 6))
                s = sum(len(h) for h in hists[:j])
                self.samples.append({"group": tag, "trace": [json.loads(x) for x in lines[s:s + min(len(hists[j]), 8)]]})
            return None
        s, k = fails[0]
        # confirm: run the failing history alone, afresh, up to the rejected event
        flat = [e for h in hists for e in h]
        hist = flat[s:k + 1]
        v = self.confirm([hist], tag)
        if v is None:
            v = self.confirm([flat[0:k + 1]], tag, first=0)  # needs what came before it
        if v is None: raise CheckError("a rejection did not repeat: %s" % json.dumps(lines[k])[:500])
        return v

    def confirm(self, hists, tag, first=0):
        lines = self.execute(hists, "confirm")
        c, _ = self.tlc_trace(lines, "confirm")
        if c >= len(lines): return None
        crash = "__crash" in lines[c]
        exp = ""
        if not crash:
            try:
                out = self.tlc_trace(lines[:c + 1], "diag", diag=True)
                m = re.search(r'<<"EXPECTED", "(.*)">>', out)
                exp = m.group(1).replace('\\"', '"') if m else "no action of the specification is enabled"
            except CheckError as x: exp = "diag: " + str(x)[-300:]
        return {"property": self.prop, "module": self.module, "driver": self.driver, "group": tag,
                "history": hists[0][:c + 1], "observed": "crash: " + self.crash if crash else json.loads(lines[c]).get("r"),
                "event": hists[0][c] if c < len(hists[0]) else None, "expected": exp}

    def liveness(self, hists, mutate):
        """Show the binding is live: a recorded observation, corrupted, must be rejected."""
        lines = self.execute(hists, "corrupt")
        i = mutate(lines)
        if i is None: return
        c, _ = self.tlc_trace(lines, "corrupt")
        if c != i: raise CheckError("corrupted observation at %d accepted (consumed %d)" % (i, c))
        self.notes.append("corrupted observation at event %d rejected by TLC, as it must be" % i)

def corrupt_last(lines):
    """Default corruption: bump the first integer (or flip the first boolean) inside the last event's r."""
    for i in range(len(lines) - 1, -1, -1):
        e = json.loads(lines[i])
        def bump(x):
            if isinstance(x, bool): return (not x), True
            if isinstance(x, int): return (x + 1000003 if abs(x) < 10**9 else 0), True
            if isinstance(x, list):
                for k, y in enumerate(x):
                    z, ok = bump(y)
                    if ok: return x[:k] + [z] + x[k + 1:], True
            if isinstance(x, dict):
                for k, y in x.items():
                    z, ok = bump(y)
                    if ok:
                        x = dict(x); x[k] = z; return x, True
            return x, False
        r, ok = bump(e.get("r", {}))
        if ok:
            e["r"] = r; lines[i] = json.dumps(e, separators=(",", ":")); del lines[i + 1:]
            return i
    return None
