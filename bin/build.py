#!/usr/bin/env python3
"""Builds harness drivers against /repo's current sources into /verif/build (git-ignored).
   build.py [driver ...]   (no argument: every driver)
A driver is linked with the .cpp files its #include closure reaches (x.hpp -> x.cpp), and, should that not link
(a refactoring may have moved code to a file the closure does not see), with every .cpp under /repo/src.
CSPICE and NRLMSISE-00, absent here, are replaced by harness/stubs.  ninja keeps it incremental."""
import fcntl, glob, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WINDOWS_ONLY = {"hils_uart_port.cpp", "hils_i2c_target_port.cpp", "com_port_interface.cpp"}  # need msclr (C++/CLI)

FLAGS = ("-O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
         "-ftrivial-auto-var-init=pattern -fmax-errors=5")

def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".cpp") and not f.startswith("test_") and f not in WINDOWS_ONLY:
                out.append(os.path.join(d, f))
    return sorted(out)

_inc_cache = {}
def includes(path):
    if path not in _inc_cache:
        try: txt = open(path, errors="replace").read()
        except OSError: txt = ""
        _inc_cache[path] = re.findall(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', txt, re.M)
    return _inc_cache[path]

def closure(driver_cpp, allsrc):
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness")]
    allset = set(allsrc); seen = set(); todo = [driver_cpp]; need = set()
    while todo:
        p = todo.pop()
        if p in seen: continue
        seen.add(p)
        for inc in includes(p):
            for r in [os.path.dirname(p)] + roots:
                q = os.path.normpath(os.path.join(r, inc))
                if os.path.isfile(q):
                    todo.append(q)
                    c = os.path.splitext(q)[0] + ".cpp"
                    if c in allset and c not in need:
                        need.add(c); todo.append(c)
                    break
    return sorted(need)

def generate(drivers):
    os.makedirs(BUILD, exist_ok=True)
    ih = os.path.join(REPO, "ExtLibraries", "inih")
    inc = f"-I{REPO}/src -I{VERIF}/harness -I{VERIF}/harness/stubs -I{ih} -I{REPO}/ExtLibraries"
    defs = (f'-DSETTINGS_DIR_FROM_EXE=\'"{REPO}/example/settings"\' -DEXT_LIB_DIR_FROM_EXE=\'"{REPO}/ExtLibraries"\' '
            f'-DCORE_DIR_FROM_EXE=\'"{REPO}"\'')
    L = ["ninja_required_version = 1.5",
         f"rule cxx\n  command = g++ -std=c++17 {FLAGS} {inc} {defs} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  description = CXX $in",
         f"rule cc\n  command = gcc -O1 -g1 -w -fsanitize=address {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  description = CC $in",
         "rule ar\n  command = rm -f $out && ar rcsT $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = AR $out",
         "rule link\n  command = g++ -fsanitize=address -o $out $in -lpthread\n  description = LINK $out"]
    objs = {}
    def add(src, rule="cxx"):
        o = os.path.join("obj", os.path.relpath(src, "/").replace("/", "_") + ".o")
        if src not in objs:
            objs[src] = o
            L.append(f"build {esc(o)}: {rule} {esc(src)}")
        return o
    src = sources()
    lib = [add(s) for s in src]
    common = [add(s, "cc") for s in sorted(glob.glob(ih + "/*.c"))] + [add(s) for s in sorted(glob.glob(ih + "/cpp/*.cpp"))]
    common.append(add(os.path.join(VERIF, "harness/stubs/stubs.cpp")))
    L.append("build libs2e.a: ar " + " ".join(map(esc, lib)))
    L.append("build libcommon.a: ar " + " ".join(map(esc, common)))
    for d in drivers:
        cpp = os.path.join(VERIF, "harness", d + ".cpp")
        o = add(cpp)
        near = [objs[s] for s in closure(cpp, src)]
        L.append(f"build lib_{d}.a: ar " + " ".join(map(esc, near)))
        L.append(f"build {d}: link {esc(o)} lib_{d}.a libcommon.a")
        L.append(f"build full/{d}: link {esc(o)} libs2e.a libcommon.a")
    txt = "\n".join(L) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)

def all_drivers():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(VERIF, "harness", "*.cpp")))

def ninja(targets):
    with open(os.path.join(BUILD, ".lock"), "w") as lock:      # two builds at once would take each other's dependency files
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-C", BUILD, "-j8"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build(driver):
    """Returns (path of the executable or None, build output)."""
    generate(all_drivers())
    rc, out = ninja([driver])
    if rc == 0: return os.path.join(BUILD, driver), out
    if ninja([os.path.join("obj", os.path.relpath(os.path.join(VERIF, "harness", driver + ".cpp"), "/").replace("/", "_") + ".o")])[0] != 0:
        return None, out   # the driver itself does not compile: linking it with everything cannot help
    rc2, out2 = ninja(["full/" + driver])
    if rc2 == 0: return os.path.join(BUILD, "full", driver), out + out2
    return None, out + out2

if __name__ == "__main__":
    bad = 0
    for d in sys.argv[1:] or all_drivers():
        exe, out = build(d)
        if exe is None: sys.stdout.write(out[-6000:]); bad = 1
    sys.exit(bad)
