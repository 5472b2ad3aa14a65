"""C16: levels, dimensions and scales are managed consistently."""
import sys, os, math, re, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hashlib, hv, gen, norm, programs, mgmt
LEVEL = "translation_validation"
N = 4
PRIMES = [67239937, 8796093202433, 134250497, 17179967489, 35184372121601, 35184372203521, 35184372744193, 34359754753, 34359771137, 8796093349889, 1152921504606748673, 97, 193, 257, 769, 12289, 65537]

class Slots(gen.Gen):
    def __init__(self, r, ty, o):
        super().__init__(r, ty); self.o = o; self.T = f"tensor<1x{N}x{ty}>"; self.f = "f" if ty[0] == "f" else "i"
    def con(self):
        x = self.fresh("c"); r = self.r
        l = [r.randrange(-5, 9) for _ in range(N)] if r.random() < .5 else [r.choice([1, 2, 3, -1, 0])] * N
        s = ", ".join(f"{v}.0" if self.f == "f" else str(v) for v in l)
        self.emit(f"{x} = arith.constant dense<[[{s}]]> : {self.T}"); return x
    def live(self, y=None, names=None):
        """Use what is not used: y plus every value of the innermost scope nothing uses."""
        t = self.text()
        for v in names or [v for v in self.scopes[-1]["v"] if v != y]:
            if len(re.findall(re.escape(v) + r"(?![#\w])", t)) > (0 if "#" in v else 1): continue
            if y is None: y = v; continue
            x = self.fresh(); self.emit(f"{x} = arith.add{self.f} {y}, {v} : {self.T}"); y = x
        return y
    def plain(self):
        p = self.pick("p")
        return self.con() if p is None or self.r.random() < .4 else p
    def op(self, d=0):
        r = self.r; k = r.random(); x = self.fresh(); o = self.o
        mul = r.random() < o.get("mul", .5)
        kind = "mul" if mul else r.choice(["add", "add", "sub"])
        if k < .55: a, b = self.pick("v"), self.pick("v"); b = a if r.random() < .2 else b
        elif k < .78: a, b = self.pick("v"), self.plain()
        elif k < .86:
            if not self.all("ix"): return
            self.emit(f"{x} = tensor_ext.rotate {self.pick('v')}, {self.pick('ix')} : {self.T}, index"); self.add("v", x); return
        elif k < .94 and o.get("loops") and not hasattr(self, "looped"): return self.loop(d)
        elif d < 2 and o.get("ifs"): return self.branch(d)
        elif r.random() < .2:
            a, b = self.plain(), self.plain(); self.emit(f"{x} = arith.{kind}{self.f} {a}, {b} : {self.T}"); self.add("p", x); return
        else: a, b = self.pick("v"), self.pick("v")
        if r.random() < .5: a, b = b, a
        self.emit(f"{x} = arith.{kind}{self.f} {a}, {b} : {self.T}"); self.add("v", x)
    def loop(self, d):
        self.looped = 1  # what a loop needs of another one is known to fail (pins)
        r = self.r; o = self.o; n = r.choice([1, 1, 2]); i = self.fresh("i"); xs = [self.fresh() for _ in range(n)]; as_ = [self.fresh("a") for _ in range(n)]
        ini = [self.pick("v") if r.random() < .8 or not o.get("mixed") else self.plain() for _ in range(n)]; tr = r.choice([2, 2, 3, 4])
        if not any(y in self.all("v") for y in ini): ini[0] = self.pick("v")
        scf = r.random() < .4
        if scf:
            c = [self.fresh("c") for _ in range(3)]
            for y, v in zip(c, (0, tr, 1)): self.emit(f"{y} = arith.constant {v} : index")
        h = f"scf.for {i} = {c[0]} to {c[1]} step {c[2]}" if scf else f"affine.for {i} = 0 to {tr}"
        res = xs[0] + (f":{n}" if n > 1 else "")
        self.emit(f"{res} = {h} iter_args({', '.join(f'{a} = {y}' for a, y in zip(as_, ini))}) -> ({', '.join([self.T] * n)}) {{")
        self.push()
        for a in as_: self.add("v", a)
        for _ in range(r.randrange(1, 4)): self.op(d + 1)
        ys = [self.pick("v") for _ in range(n)]
        if not o.get("loose"):  # every value carried around the loop depends on what it was
            for k in range(n):
                y = self.fresh(); x = self.pick("v") if r.random() < .8 else self.plain(); kind = r.choice(["add", "add", "sub", "mul"])
                self.emit(f"{y} = arith.{kind}{self.f} {as_[k]}, {x} : {self.T}"); ys[k] = y
            self.add("v", ys[0]); ys[0] = self.live(ys[0], [v for v in self.scopes[-1]["v"] if v not in ys])
        self.emit(f"{'scf' if scf else 'affine'}.yield {', '.join(ys)} : {', '.join([self.T] * n)}"); self.pop(); self.emit("}")
        for k in range(n): self.add("v", xs[0] + (f"#{k}" if n > 1 else ""))
    def branch(self, d):
        r = self.r; x = self.fresh(); c = self.pick("b")
        if c is None: return
        self.emit(f"{x} = scf.if {c} -> ({self.T}) {{")
        for part in (0, 1):
            self.push()
            for _ in range(r.randrange(0, 3)): self.op(d + 1)
            self.emit(f"scf.yield {self.pick('v') if r.random() < .85 or not self.o.get('mixed') else self.plain()} : {self.T}"); self.pop(); self.emit("} else {" if part == 0 else "}")
        self.add("v", x)

def func(r, ty, n=(1, 9), **o):
    g = Slots(r, ty, o); T = g.T; S = f"!secret.secret<{T}>"
    ns, np = r.randrange(1, 4), r.randrange(0, 3)
    args = [(f"%s{k}", S) for k in range(ns)] + [(f"%p{k}", T) for k in range(np)]
    if o.get("ifs"): args.append(("%cond", "i1")); g.add("b", "%cond")
    for x, t in args[ns:ns + np]: g.add("p", x)
    for v in r.sample(range(N), 2): c = g.fresh("k"); g.emit(f"{c} = arith.constant {v} : index"); g.add("ix", c)
    if r.random() < .4: g.add("p", g.con())
    k = r.choice([1, 1, 2]) if o.get("two") else 1
    sec = [f"%s{j}" for j in range(ns)]
    for q in range(k):
        ins = r.sample(sec, r.randrange(1, len(sec) + 1)); ba = [g.fresh("z") for _ in ins]
        pos = len(g.out); g.emit(""); g.emit(f"^body({', '.join(f'{b}: {T}' for b in ba)}):")
        g.push()
        for b in ba: g.add("v", b)
        for _ in range(r.randrange(*n)): g.op()
        if o.get("loops"): y = g.live(g.scopes[-1]["v"][-1]); g.add("v", y)
        l = g.scopes[-1]["v"]; out = list(dict.fromkeys([l[-1]] + [r.choice(l) for _ in range(r.choice([0, 0, 1]))]))
        g.emit(f"secret.yield {', '.join(out)} : {', '.join([T] * len(out))}"); g.pop()
        res = [g.fresh("g") for _ in out]; pre = "  " * g.ind
        g.out[pos] = f"{pre}{', '.join(res)} = secret.generic({', '.join(f'{a}: {S}' for a in ins)}) {{"
        g.emit(f"}} -> ({', '.join([S] * len(out))})")
        sec += res
    rets = sec[ns:][-3:]
    g.emit(f"return {', '.join(rets)} : {', '.join([S] * len(rets))}")
    return f"func.func @main({', '.join(f'{x}: {t}' for x, t in args)}) -> ({', '.join([S] * len(rets))}) {{\n{g.text()}\n}}\n"

POOL = []
def flush(c, name):
    if POOL: c.check("Mgmt", list(POOL), label=f"{name}-{len(POOL)}", what="inconsistent ciphertext management")
    POOL.clear()

def group(c, label, pipe, mods, attrs, sch, first=0, lim=40, boot=None, dbg=0, pend=True, refuse=None):
    c.count("groups")
    res = c.opt(mods, pipe.split(), attrs=attrs)
    scaled = "populate" in pipe and not label.startswith("pin-")
    mid = c.opt(mods, [x for x in pipe.split() if "populate" not in x], attrs=attrs) if scaled else res
    sums = lambda m: len(re.findall(r"'arith\.(?:add|sub)[if]'", str(m)))
    recs = []
    for text, at, x, w in zip(mods, attrs, res, mid):
        key = label + ":" + hashlib.sha256((at + text).encode()).hexdigest()[:10]
        info = dict(text=text, attrs=at, pipeline=pipe)
        if x.get("crash"):
            a = re.search(r"Assertion `(.*?)' failed", str(x["crash"]), re.S)  # a crash in a known place is one finding
            kind = "loops" if ".for " in text else "ifs" if "scf.if" in text else "flat"
            if a: key = f"{kind}:" + re.sub(r"[^\w!&|<>=]+", "_", a.group(1))[:60]
            c.fail(key, dict(info, crash=x["crash"]), f"{label} does not terminate normally"); continue
        if x["after"] is None:
            if x["before"] is None: c.count("generator_rejected"); c.notes.setdefault("rejected_sample", (x["err"] or "")[:300]); continue
            if refuse and refuse(x["err"]): c.count("refused"); continue
            c.fail(key, dict(info, err=x["err"]), f"{label} fails on a valid program"); continue
        m = x["after"]
        try:
            p, types = programs.program(x["before"], "main", norm.Norm())
            q, _ = programs.program(m, "main", norm.Norm())
            ins = programs.inputs(c.rng, types, 2)
            tr = mgmt.Tree(m)
        except norm.Unsupported as e:
            c.count("unsupported"); d = c.notes.setdefault("unsupported_ops", {}); d[str(e)[:60]] = d.get(str(e)[:60], 0) + 1; continue
        if "'arith.select'" in str(tr.main["body"]): c.count("selects"); continue  # no level of its own
        loose = scaled and w["after"] is not None and sums(w["after"]) != sums(m)  # sums cancelled between: the pinned bgv-merged-modreduce
        if loose: c.count("cancelled")
        pr = mgmt.params(m) if "populate" in pipe else None
        rec = dict(tr.rec(), sch=sch, t=0, q=[], lim=lim, boot=boot or [0, 0], first=first, dbg=dbg, loose=int(loose))
        if sch == "bfv": rec["lim"] = max([a[0] for a in tr.an if a] + [0])
        if pr and sch != "ckks": rec.update(t=pr["t"], q=[v % pr["t"] for v in pr["q"]])
        if pr and sch == "ckks":
            if max([a[0] for a in tr.an if a] + [0]) >= len(pr["q"]): c.count("short_chain"); continue
            rec.update(t=1, q=[round(math.log2(v)) for v in pr["q"]]); rec["boot"] = [rec["boot"][0], pr["ld"] * (1 + first)]
        f = tr.flat()
        if f and pend and not pr: rec.update(flat=f[0], out=f[1]); c.count("straight")
        for k in ("relinearize", "modreduce", "level_reduce", "adjust_scale", "bootstrap", "init"):
            n = str(rec["body"]).count("mgmt." + k + "'")
            if n: c.count("ops_" + k, n)
        recs.append(dict(rec, key=key, progs=[p, q], inputs=ins, **info))
    c.count("programs", len(recs)); c.count("n_" + label, len(recs))
    POOL.extend(recs)

def bgv_attrs(r):
    t = r.choice([17, 97, 257, 769, 12289, 40961, 65537])
    q = r.sample([p for p in PRIMES if p != t], 16)
    return f"backend.lattigo, scheme.bgv, bgv.schemeParam = #bgv.scheme_param<logN = 4, Q = [{', '.join(map(str, q))}], P = [8796093349889], plaintextModulus = {t}>"

BGV_O = ["", "=after-mul=true", "=before-mul-include-first-mul=true"]

def ckks_attrs(r, backend, ld):
    q = [q for q in CK if round(math.log2(q)) == ld]; q = [r.choice([1152921504606748673] + q)] + [r.choice(q) for _ in range(23)]
    return f"{backend}, scheme.ckks, ckks.schemeParam = #ckks.scheme_param<logN = 4, Q = [{', '.join(map(str, q))}], P = [8796093349889], logDefaultScale = {ld}>"
CK = [35184372121601, 35184372203521, 35184372744193, 8796093202433, 8796093349889, 17592186028033, 17592186044423, 70368743669761, 70368744177829, 34359754753, 34359771137, 17179967489, 68719403009, 68719476767]

def run(c, only=None, dbg=0):
    c.build("hopt"); r = c.rng
    want = lambda l: only is None or l in only
    n = c.scale(120, 1200)
    for k, first in ((0, 0), (1, 0), (2, 1)):
        for st, o in (("flat", {}), ("two", dict(two=1)), ("ifs", dict(ifs=1))):
            m = [func(r, "i16", **o) for _ in range(n // (1 if st == "flat" else 2))]
            if want(f"bgv{k}-{st}"): group(c, f"bgv{k}-{st}", f"--canonicalize --secret-insert-mgmt-bgv{BGV_O[k]}", m, ["backend.lattigo, scheme.bgv"] * len(m), "bgv", first, dbg=dbg)
            if st == "flat" and want(f"bgv{k}-{st}-scale"): group(c, f"bgv{k}-{st}-scale", f"--canonicalize --secret-insert-mgmt-bgv{BGV_O[k]} --populate-scale-bgv", m, [bgv_attrs(r) for _ in m], "bgv", first, dbg=dbg)
    flush(c, "bgv")
    m = [func(r, "i16", **o) for o in ({}, dict(ifs=1)) for _ in range(n // 2)]
    if want("bfv"): group(c, "bfv", "--canonicalize --secret-insert-mgmt-bfv", m, ["backend.openfhe, scheme.bfv"] * len(m), "bfv", dbg=dbg, pend=False)
    flush(c, "bfv")
    for k, first in ((0, 0), (1, 0), (2, 1)):
        o = ("=" + BGV_O[k].strip("=") if BGV_O[k] else "")
        for st, oo in (("flat", {}), ("two", dict(two=1)), ("ifs", dict(ifs=1)), ("loops", dict(loops=1))):
            m = [func(r, "f32", **oo) for _ in range(n // 2)]
            be = [r.choice(["backend.lattigo", "backend.openfhe"]) for _ in m]
            if want(f"ckks{k}-{st}"): group(c, f"ckks{k}-{st}", f"--canonicalize --secret-insert-mgmt-ckks{o}", m, [f"{b}, scheme.ckks" for b in be], "ckks", first, dbg=dbg)
            if st in ("flat", "ifs") and want(f"ckks{k}-{st}-scale"):
                pipe = f"--canonicalize --secret-insert-mgmt-ckks{o} --populate-scale-ckks" + ("=before-mul-include-first-mul=true" if first else "")
                group(c, f"ckks{k}-{st}-scale", pipe, m, [ckks_attrs(r, b, r.choice([35, 44, 45])) for b in be], "ckks", first, dbg=dbg)
    flush(c, "ckks")
    # what is known to fail, one program each: loops for BGV/BFV, branches and
    # loops with chosen scales, and one canonicalization
    for p in json.load(open(os.path.dirname(os.path.abspath(__file__)) + "/pins/C16.json")):
        if want("pin"): group(c, "pin-" + p["name"], p["pipeline"], [p["text"]], [p["attrs"]], re.search("bgv|bfv|ckks", p["pipeline"]).group(), int("include-first" in p["pipeline"]), dbg=dbg, pend=False)
    flush(c, "pins")

if __name__ == "__main__": hv.main("C16", run, LEVEL)
