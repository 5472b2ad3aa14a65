"""Harness shared by all checks: build drivers from /repo, record what the real
code does, let TLC decide every record against the TLA+ specification, report.

A record is one JSON object.  The specification module M defines Conforms(rec);
TLC evaluates it for every record inside an ordinary next-state relation, so
the run is a behaviour of the trace specification and every rejected record is
printed.  Records that only Python looked at decide nothing."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

OPT_LOCK = Lock()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, VERIF + "/tools")
B = os.environ.get("HBUILD_DIR", VERIF + "/build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Broken(Exception):
    """The machinery (not google/heir) failed: exit 2."""

WRAP = """---------------------------- MODULE MC ----------------------------
EXTENDS %(mod)s, Json
Trace == ndJsonDeserialize("%(trace)s")
N == Len(Trace)
W == %(w)d
VARIABLE l
Decide(n) == IF Conforms(Trace[n]) THEN TRUE ELSE PrintT(<<"FAIL", n>>)
Init == l = 0
Next == \\/ l = 0 /\\ \\E n \\in 1..(IF W < N THEN W ELSE N) : Decide(n) /\\ l' = n
        \\/ l > 0 /\\ l + W <= N /\\ Decide(l + W) /\\ l' = l + W
Spec == Init /\\ [][Next]_l
===================================================================
"""

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.work = f"{B}/work/{prop}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.fails, self.known = [], []
        self.states = self.trans = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.counts = {}
        self.known_keys = load_known(prop)

    def scale(self, q, t):
        return q if self.quick else t

    # ---- build and drive the real code
    def build(self, *drivers):
        import hbuild
        t = time.time()
        try:
            r = hbuild.build(list(drivers))
        except hbuild.BuildError as e:
            raise Broken(f"build failed: {str(e)[-3000:]}")
        self.notes["build_s"] = round(time.time() - t, 1)
        return r

    def drive(self, driver, cmds, procs=8, timeout=300):
        """Feed one JSON command per line to a driver; returns the answers in
        order.  A command the driver died on is answered {"crash": ...}."""
        if not cmds: return []
        exe = f"{B}/bin/{driver}"
        n = max(1, min(procs, len(cmds) // 4 or 1))
        chunks = [list(range(k, len(cmds), n)) for k in range(n)]
        out = [None] * len(cmds)
        def one(idx):
            i = 0
            crashes = 0
            while i < len(idx):
                inp = "".join(json.dumps(cmds[j]) + "\n" for j in idx[i:])
                p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, text=True, errors="replace", cwd=self.work)
                try:
                    o, e = p.communicate(inp, timeout=timeout)
                    why = None if p.returncode == 0 else f"exit {p.returncode}: {e[-400:]}"
                except subprocess.TimeoutExpired:
                    p.kill(); o, e = p.communicate(); why = "hang"
                got = 0
                for line in o.splitlines():
                    if i + got >= len(idx): break
                    try: out[idx[i + got]] = json.loads(line)
                    except ValueError: break
                    got += 1
                i += got
                if i < len(idx):
                    crashes += 1
                    if why is None: why = "no answer"
                    out[idx[i]] = {"crash": why}
                    if why != "hang":   # twice, alone, before it counts
                        p = subprocess.run([exe], input=json.dumps(cmds[idx[i]]) + "\n", capture_output=True, text=True, errors="replace", cwd=self.work, timeout=timeout)
                        if p.returncode == 0:
                            try: out[idx[i]] = json.loads(p.stdout)
                            except ValueError: pass
                    i += 1
                    if crashes > 40:
                        raise Broken(f"{driver}: too many crashes, last: {why}")
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, chunks))
        return out

    def opt(self, mods, pipeline, exe="hopt", batch=24, timeout=60, keep_text=False, attrs=None, single=25):
        """Run an MLIR pipeline over many modules (each a list of top-level ops
        as text).  Returns per module dict(before, after, err): the recorded
        modules, or what the tool said when it refused."""
        exe = f"{B}/bin/{exe}"
        d = f"{self.work}/opt"; os.makedirs(d, exist_ok=True)
        self._optn = getattr(self, "_optn", 0)
        res = [None] * len(mods)
        def run(idx, tag):
            fa, fb, fi, fm = (f"{d}/{tag}.{x}" for x in ("before", "after", "mlir", "mid"))
            for f in (fa, fb, fm):
                if os.path.exists(f): os.remove(f)
            open(fi, "w").write("\n// -----\n".join(f"module attributes {{{(attrs[k] + ', ') if attrs else ''}v.id = {k} : i32}} {{\n{mods[k]}\n}}\n" for k in idx))
            try:
                p = subprocess.run([exe, "--split-input-file", "--mlir-disable-threading", f"--dump-json=out={fa}", *[f"--dump-json=out={fm}" if x == "@dump" else x for x in pipeline],
                                    f"--dump-json=out={fb}", fi], capture_output=True, text=True, errors="replace",
                                   timeout=timeout if len(idx) > 1 else single, cwd=d, env=dict(os.environ, LLVM_DISABLE_SYMBOLIZATION="1"))
                rc, err, txt = p.returncode, p.stderr, p.stdout
            except subprocess.TimeoutExpired:
                rc, err, txt = "hang", "hang", ""
            def get(f):
                r = {}
                if os.path.exists(f):
                    for line in open(f):
                        try: m = json.loads(line)
                        except ValueError: continue
                        r[m["a"].get("v.id")] = m
                return r
            bs, as_, ms = get(fa), get(fb), get(fm)
            if not os.environ.get("HV_KEEP"):
                for f in (fa, fb, fi, fm):
                    if os.path.exists(f): os.remove(f)
            if rc != 0 and len(idx) > 1:
                # attribute failures one by one
                bad = [k for k in idx if k not in as_]
                for k in idx:
                    if k in as_: res[k] = dict(before=bs.get(k), after=as_[k], mid=ms.get(k), err=None)
                with ThreadPoolExecutor(4) as ex: list(ex.map(lambda k: run([k], f"{tag}-{k}"), bad))
                return
            for k in idx:
                ok = k in as_
                crash = None
                if not ok and (rc == "hang" or (isinstance(rc, int) and (rc < 0 or rc > 1))): crash = f"exit {rc}: " + err[:600]
                res[k] = dict(before=bs.get(k), after=as_.get(k), mid=ms.get(k), err=None if ok else ((err if len(err) < 3000 else err[:1500] + " ... " + err[-1500:]) or str(rc)), crash=crash)
                if keep_text and len(idx) == 1: res[k]["text"] = txt
        with OPT_LOCK: self._optn = optn = self._optn + 1
        if keep_text: batch = 1
        # interleave so that each batch is a mix
        n = max(1, -(-len(mods) // batch))
        chunks = [list(range(k, len(mods), n)) for k in range(n)]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: run(x[1], f"{optn}-{x[0]}"), enumerate(chunks)))
        return res

    # ---- TLC
    def tlc(self, mod_dir, cfg_text, module="MC", workers=8, mem="4g", extra=(), timeout=3000):
        cfg = f"{mod_dir}/{module}.cfg"
        open(cfg, "w").write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss256m", f"-Djava.io.tmpdir={mod_dir}", "-cp", f"{JAR}", f"-DTLA-Library={VERIF}/spec",
               "tlc2.TLC", "-workers", str(workers), "-deadlock", "-nowarning", "-metadir", f"{mod_dir}/states",
               "-config", cfg, *extra, f"{mod_dir}/{module}.tla"]
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", cwd=mod_dir, timeout=timeout)
        return p.returncode, p.stdout + p.stderr

    def conform(self, module, recs, label=None, workers=8, mem="6g", consts=""):
        """TLC decides every record.  Returns the indices it rejected."""
        label = label or module
        rejected = []
        left = list(range(len(recs)))
        rounds = 0
        while left:
            d = f"{self.work}/{label}-{rounds}"
            os.makedirs(d, exist_ok=True)
            with open(f"{d}/trace.ndjson", "w") as f:
                for i in left: f.write(json.dumps(recs[i]) + "\n")
            w = min(64, len(left))
            open(f"{d}/MC.tla", "w").write(WRAP % dict(mod=module, trace=f"{d}/trace.ndjson", w=w))
            rc, o = self.tlc(d, "SPECIFICATION Spec\n" + consts, workers=workers, mem=mem)
            bad = [left[int(n) - 1] for n in re.findall(r'<<"FAIL", (\d+)>>', o)]
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
            if "Model checking completed. No error has been found." in o:
                if not m or int(m.group(2)) != len(left) + 1:
                    raise Broken(f"{label}: TLC visited {m and m.group(2)} states for {len(left)} records\n{o[-1500:]}")
                self.states += int(m.group(2)); self.trans += int(m.group(1))
                self.traces += len(left)
                rejected += bad
                break
            # TLC could not evaluate one record: find it, decide it apart
            ls = re.findall(r"(?m)^\s*(?:/\\ )?l = (\d+)\s*$", o)
            open(f"{d}/out.txt", "w").write(o)
            if not ls or rounds > 8:
                raise Broken(f"{label}: TLC failed\n{o[o.find('Error'):][:1500]}\n...\n{o[-1200:]}")
            last = int(ls[-1])
            cands = [last + w] if last > 0 else list(range(1, w + 1))
            culprit = None
            for c in cands:
                if c - 1 >= len(left): continue
                if self._single(module, recs[left[c - 1]], consts) == "error":
                    culprit = c; break
            if culprit is None:
                raise Broken(f"{label}: TLC failed and no single record repeats it\n{o[-3000:]}")
            self.notes.setdefault("eval_errors", []).append(self._last_error[:600])
            rejected.append(left[culprit - 1])
            left = left[:culprit - 1] + left[culprit:]
            rounds += 1
        return sorted(set(rejected))

    def _single(self, module, rec, consts=""):
        d = f"{self.work}/single"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/trace.ndjson", "w").write(json.dumps(rec) + "\n")
        open(f"{d}/MC.tla", "w").write(WRAP % dict(mod=module, trace=f"{d}/trace.ndjson", w=1))
        rc, o = self.tlc(d, "SPECIFICATION Spec\n" + consts, workers=1)
        if "No error has been found." in o:
            return "fail" if '<<"FAIL"' in o else "ok"
        self._last_error = o[o.find("Error:"):]
        return "error"

    def model(self, module, cfg, consts="", workers=8, timeout=3000, must_cover=()):
        """A design-level TLC run of the specification itself (no implementation)."""
        d = f"{self.work}/{module}-model-{abs(hash(cfg + consts)) % 10**8}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/MC.tla", "w").write(f"---- MODULE MC ----\nEXTENDS {module}\n{consts}\n====\n")
        rc, o = self.tlc(d, cfg, workers=workers, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        if "No error has been found." not in o or not m:
            raise Broken(f"{module}: the specification itself does not satisfy its properties\n{o[-3000:]}")
        self.states += int(m.group(2)); self.trans += int(m.group(1))
        self.count(f"design_states_{module}", int(m.group(2)))
        return o

    # ---- verdicts
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(x)

    def fail(self, key, rec, what=""):
        if key in self.known_keys:
            if key not in [k for k, _ in self.known]: self.known.append((key, what))
            return
        self.fails.append((key, what))
        if len(self.fails) <= 20:
            name = f"{self.work}/replay-{len(self.fails)}.json"
            json.dump({"property": self.prop, "key": key, "what": what, "seed": self.seed, "tier": self.tier, "record": rec},
                      open(name, "w"), indent=1)

    def check(self, module, recs, key=None, label=None, what="", **kw):
        """conform + fail.  Every record carries "key" (its stable name)."""
        for i in self.conform(module, recs, label=label, **kw):
            r = recs[i]
            self.fail(r.get("key", "?"), r, what or module)

    def finish(self):
        if not self.traces and not self.fails and not self.known: raise Broken(f"{self.prop}: nothing was checked; {self.notes}")
        if self.counts.get("generator_rejected", 0) > max(3, self.traces): raise Broken(f"{self.prop}: most programs are rejected; {self.notes}")
        for k, w in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {self.known_keys[k]}")
        for k in set(self.known_keys) - {k for k, _ in self.known}:
            print(f"note: known finding no longer fails: {k}", file=sys.stderr)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["-"], **self.counts)
        if self.level == "translation_validation":
            cov = dict(programs=self.counts.get("programs", self.traces), disagreements_checked=self.traces,
                       samples=self.samples or ["-"], states=self.states, transitions=self.trans,
                       **{k: v for k, v in self.counts.items() if k != "programs"})
        cov.update(self.notes)
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level=self.level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), violations=len(self.fails))
        if self.assumptions: ev["assumptions"] = self.assumptions
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        for n, (k, w) in enumerate(self.fails[:20]):
            print(f"VIOLATION property={self.prop} replay={self.work}/replay-{n + 1}.json  # {w}: {str(k)[:200]}")
        print(f"{self.prop}: {self.traces} records, {self.states} states, {len(self.fails)} violations, "
              f"{len(self.known)} known, {ev['wall_s']} s")
        return 1 if self.fails else 0

def load_known(prop):
    r = {}
    try: lines = open(VERIF + "/known-findings.txt").read().splitlines()
    except OSError: lines = []
    for s in lines:
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", s)
        if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r

def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except Broken as e:
        if c.fails:      # violations already established stand
            print(f"{prop}: machinery failed: {str(e)[:2000]}", file=sys.stderr)
            rc = c.finish()
        else:
            print(f"{prop}: machinery failed: {e}", file=sys.stderr)
            rc = 2
    if rc != 1 and not os.environ.get("HV_KEEP"):
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
