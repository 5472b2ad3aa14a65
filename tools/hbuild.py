#!/usr/bin/env python3
"""hbuild.py DRIVER... : builds drivers from /repo's current tree into /verif/build.

Content-keyed: an object is rebuilt when the (comment-stripped) content of any
file it depends on, or its command, changed -- never because of a time stamp.
Sources of /repo are compiled unmodified against apt's LLVM/MLIR 20 through the
header overlay in /verif/compat (see DESIGN.md, "Compat build").
"""
import fcntl, hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import buildfiles
REPO = "/repo"
B = os.environ.get("HBUILD_DIR", VERIF + "/build")
LLVM = "/usr/lib/llvm-20"
CXX = LLVM + "/bin/clang++"
JOBS = int(os.environ.get("HBUILD_JOBS", "8"))
TDFIX = ("ApplyFolders/Patterns.td", "FoldPlaintextMasks/Patterns.td", "SelectRewrite/SelectRewrite.td",
         "ActivationCanonicalizations/Rewrites.td", "IR/TensorExtCanonicalization.td", "Transforms/InsertRotate.td")
# sources that cannot be compiled against MLIR 20 even through the overlay
EXCLUDE = re.compile(r"(Test|_benchmark|benchmark)\.(cpp|cc)$|/Yosys|YosysOptimizer/|OpenFHEToEmitC/|TestUtils|"
                     r"(Lattigo|Secret|Preprocessing)/Transforms/BufferizableOpInterfaceImpl|BooleanPipelineRegistration|^lib/Tablegen/")
LIBS = ("-lisl -lz3 -lMLIR -lLLVM-20 -labsl_int128 -labsl_status -labsl_statusor -labsl_time -labsl_strings "
        "-labsl_base -labsl_raw_logging_internal -labsl_throw_delegate -lpthread").split()
FLAGS = (f"-std=c++20 -O1 -w -I{REPO} -I{B}/gen -I{VERIF}/driver -isystem {B}/ov/shim -isystem {B}/ov/inc "
         f"-isystem /usr/include/eigen3 -isystem {VERIF}/compat/stub").split()
PCHFLAGS = f"-Xclang -fno-validate-pch -include-pch {B}/pch.pch -fpch-instantiate-templates".split()
# driver -> (main file, labels whose closure is linked, "ALL" for the whole library)
DRIVERS = json.load(open(HERE + "/drivers.json"))

_hc = {}
def strip_comments(s):
    return re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/',
                  lambda m: m.group(0) if m.group(0)[0] in "\"'" else " ", s, flags=re.S)
def fhash(p):
    if p not in _hc:
        try:
            s = open(p, errors="surrogateescape").read()
            if p.endswith((".h", ".cpp", ".inc", ".td", ".cc", ".c")) and 'R"' not in s:
                s = re.sub(r"[ \t]+", " ", re.sub(r"\s*\n\s*", "\n", strip_comments(s)))
            _hc[p] = hashlib.sha1(s.encode("utf-8", "surrogateescape")).hexdigest()
        except OSError:
            _hc[p] = "-"
    return _hc[p]

def tree_hash(d):
    h = hashlib.sha1()
    for r, ds, fs in sorted(os.walk(d)):
        if "__pycache__" in r: continue
        for f in sorted(fs):
            h.update((os.path.join(r, f) + fhash(os.path.join(r, f))).encode())
    return h.hexdigest()

class DB:
    def __init__(self):
        self.p = B + "/db.json"
        try: self.d = json.load(open(self.p))
        except Exception: self.d = {}
        self.l = threading.Lock()
    def save(self):
        with self.l:
            json.dump(self.d, open(self.p + ".tmp", "w"))
            os.replace(self.p + ".tmp", self.p)

def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def parse_d(path):
    try: s = open(path).read()
    except OSError: return []
    s = s.replace("\\\n", " ")
    s = s.split(":", 1)[1]
    return sorted({os.path.normpath(x) for x in s.split() if x.startswith((REPO + "/", B + "/gen", VERIF + "/driver"))})

def key(cmd, deps):
    h = hashlib.sha1(" ".join(cmd).encode())
    for d in deps:
        h.update((d + fhash(d)).encode())
    return h.hexdigest()

class BuildError(Exception): pass

def fresh(db, out, cmd, extra=()):
    e = db.d.get(out)
    return bool(e and os.path.exists(out) and e["key"] == key(list(cmd) + list(extra), e["deps"]))

def record(db, out, cmd, deps, extra=()):
    with db.l:
        db.d[out] = {"key": key(list(cmd) + list(extra), deps), "deps": deps}

def norm(pkg, dep):
    dep = dep.removeprefix("@heir")
    if dep.startswith("@"): return dep
    if dep.startswith(":"): return pkg + dep
    if not dep.startswith("//"): return pkg + ":" + dep
    dep = dep[2:]
    return dep if ":" in dep else dep + ":" + dep.split("/")[-1]

class Tree:
    def __init__(self):
        self.t, self.gen = {}, {}
        for pkg, kind, kw in buildfiles.load_all("lib"):
            self.t[f"{pkg}:{kw.get('name')}"] = (pkg, kind, kw)
            if kind == "gentbl_cc_library":
                outs = kw["tbl_outs"]
                td = norm(pkg, kw["td_file"]).replace(":", "/")
                for opts, out in [(v, k) for k, v in outs.items()] if isinstance(outs, dict) else outs:
                    if out.endswith(".inc"):
                        self.gen[f"{pkg}/{out}"] = (td, list(opts), "heir-tblgen" in kw["tblgen"])
    def sources(self, l):
        pkg, kind, kw = self.t[l]
        return [f"{pkg}/{s}" for s in kw.get("srcs") or [] if s.endswith((".cpp", ".cc", ".c"))] if kind != "cc_test" else []
    def closure(self, labels):
        seen, st = set(), list(labels)
        while st:
            x = st.pop()
            if x in seen or x not in self.t: continue
            seen.add(x)
            st += [norm(self.t[x][0], d) for d in self.t[x][2].get("deps") or []]
        return sorted({s for x in seen for s in self.sources(x)})
    def all(self):
        return sorted({s for l in self.t for s in self.sources(l)})

def build(names, log=sys.stderr):
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    db = DB()
    try:
        return _build(names, db, log)
    finally:
        db.save()
        lock.close()

def _pool(tasks, what, log):
    errs = []
    done = 0
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(t) for t in tasks]
        for f in as_completed(fs):
            e = f.result()
            if e: errs.append(e)
            done += 1
            if len(fs) > 400 and done % 50 == 0: print(f"  {what} {done}/{len(fs)}", file=log, flush=True)
    if errs:
        raise BuildError("\n".join(errs[:5])[:6000])

def _build(names, db, log):
    t0 = time.time()
    # overlay + pch
    ch = tree_hash(VERIF + "/compat")
    stamp = B + "/ov.stamp"
    if not os.path.exists(stamp) or open(stamp).read() != ch or not os.path.exists(B + "/pch.pch"):
        print("  overlay", file=log, flush=True)
        r = run([sys.executable, VERIF + "/compat/make_overlay.py", B + "/ov"])
        if r.returncode: raise BuildError(r.stdout + r.stderr)
        r = run([CXX, *FLAGS, "-fpch-instantiate-templates", "-x", "c++-header", VERIF + "/compat/pch.h", "-o", B + "/pch.pch"])
        if r.returncode: raise BuildError(r.stderr[:4000])
        open(stamp, "w").write(ch)
    tree = Tree()
    # heir-tblgen
    def obj(s): return f"{B}/obj/{s}.o"
    def compile_task(src, out, pch):
        def go():
            os.makedirs(os.path.dirname(out), exist_ok=True)
            cmd = ([LLVM + "/bin/clang", "-w", "-O1", f"-I{REPO}"] if src.endswith(".c") else [CXX, *FLAGS, *(PCHFLAGS if pch else [])])
            cmd += ["-MMD", "-MF", out + ".d", "-c", src, "-o", out]
            if fresh(db, out, cmd, [ch]): return None
            r = run(cmd)
            if r.returncode and pch:  # a name the PCH brings in may clash: compile as the source stands
                r = run([x for x in cmd if x not in PCHFLAGS])
            if r.returncode: return f"compile {src}\n" + "\n".join(l for l in r.stderr.split("\n") if "error" in l)[:1500]
            record(db, out, cmd, parse_d(out + ".d"), [ch])
            os.unlink(out + ".d")
            return None
        return go
    def link(out, objs, libs, extra=()):
        cmd = [CXX, *objs, "-fuse-ld=lld", f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib", *extra, *libs, "-o", out]
        ks = [db.d[o]["key"] for o in objs] + [db.d[o]["key"] for o in extra if o.endswith(".o")]
        if fresh(db, out, cmd, ks): return
        r = run(cmd)
        if r.returncode: raise BuildError("link " + out + "\n" + r.stderr[:3000])
        record(db, out, cmd, [], ks)
    # which sources
    srcs = {}
    for n in names:
        d = DRIVERS[n]
        srcs[n] = [s for s in (tree.all() if d["labels"] == "ALL" else tree.closure(d["labels"])) if not EXCLUDE.search(s)]
    need_mlir = True
    tsrcs = tree.closure(["lib/Tablegen:heir-tblgen"])
    _pool([compile_task(f"{REPO}/{s}", obj(s), False) for s in tsrcs], "tblgen", log)
    link(B + "/heir-tblgen", [obj(s) for s in tsrcs], ["-lLLVMTableGen", "-lLLVM-20"])
    def gen_task(o, td, opts, heir):
        def go():
            out = f"{B}/gen/{o}"
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tool = B + "/heir-tblgen" if heir else LLVM + "/bin/mlir-tblgen"
            fix = td.endswith(TDFIX)
            src = f"{B}/gen/{o}.td" if fix else f"{REPO}/{td}"
            cmd = [tool, *opts, f"-I{REPO}", f"-I{REPO}/{os.path.dirname(td)}", f"-I{B}/ov/inc", src, "-d", out + ".d", "-o", out]
            ex = [ch, db.d[B + "/heir-tblgen"]["key"] if heir else ""]
            if fresh(db, out, cmd, ex): return None
            if fix:
                r = run([sys.executable, VERIF + "/compat/tdfix.py", f"{REPO}/{td}", src])
                if r.returncode: return "tdfix " + td
            r = run(cmd)
            if r.returncode: return f"tblgen {o}\n{r.stderr[:1500]}"
            if "-gen-op-decls" in opts:
                sys.path.insert(0, VERIF + "/compat")
                import opcreate
                s = open(out).read()
                open(out, "w").write(opcreate.add_creates(s))
            deps = [d for d in parse_d(out + ".d") if d != src] + [f"{REPO}/{td}"]
            record(db, out, cmd, sorted(set(deps)), ex)
            _hc.pop(out, None)
            return None
        return go
    _pool([gen_task(o, *g) for o, g in sorted(tree.gen.items()) if not re.search(r"OpenFHEToEmitC|Yosys", o)], "tablegen", log)
    allsrc = sorted({s for n in names for s in srcs[n]})
    tasks = [compile_task(f"{REPO}/{s}", obj(s), not s.endswith(".c")) for s in allsrc]
    for n in names:
        d = DRIVERS[n]
        m = d["main"].replace("$REPO", REPO)
        if not m.startswith("/"): m = VERIF + "/" + m
        tasks.append(compile_task(m, f"{B}/drv/{n}.o", d.get("pch", True)))
    # big ones first
    _pool(tasks, "compile", log)
    for n in names:
        link(f"{B}/bin/{n}", [f"{B}/drv/{n}.o"], LIBS, ["-Wl,--start-lib", *[obj(s) for s in srcs[n]], "-Wl,--end-lib"])
    print(f"  built {' '.join(names)} in {time.time()-t0:.1f}s", file=log, flush=True)
    return {n: f"{B}/bin/{n}" for n in names}

if __name__ == "__main__":
    names = sys.argv[1:] or list(DRIVERS)
    os.makedirs(B + "/bin", exist_ok=True)
    try:
        build(names)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(3)
