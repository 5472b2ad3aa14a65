"""C21: a Python function compiles to what Python computes."""
import sys, os, json, subprocess, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, programs, norm
LEVEL = "translation_validation"
NT = 3                                   # tensor length
SP = "    "
TY = {("i", 8): "I8", ("i", 16): "I16", ("i", 32): "I32", ("i", 64): "I64", ("b", 1): "I1", ("f", 0): "F32"}
var = lambda n: dict(k="var", n=n)
lit = lambda v: dict(k="lit", v=v)

class Fn:
    """A random function: source text and the same thing as a syntax tree.
    vars: name -> (kind, width, is a loop constant or literal)"""
    def __init__(self, r, core=True):
        self.r, self.core, self.n = r, core, 0
        self.vars, self.lines, self.sets, self.feat = {}, [], {}, set()
        self.params = []
    def fresh(self, p="v"):
        self.n += 1; return f"{p}{self.n}"
    def of(self, *tys): return [n for n, t in self.vars.items() if t in tys]
    def text(self, e):
        k = e["k"]
        if k == "var": return e["n"]
        if k == "lit": return str(e["v"]) if e["v"] >= 0 else f"({e['v']})"
        if k == "flit": return f"{e['v']}.0"
        if k in ("bin", "cmp"): return f"({self.text(e['a'])} {e['op']} {self.text(e['b'])})"
        if k == "cast": return f"{ {0: 'F32', 1: 'I1', 8: 'I8', 16: 'I16', 32: 'I32', 64: 'I64'}[e['tw']]}({self.text(e['a'])})"
    def literal(self, w=8, small=True):
        r = self.r
        return lit(r.choice([0, 1, 2, 3, 5, -1, -3, 7]) if small else r.choice([1, 2, 3, 10, 100, 127, 128, 300, -128, -129, 1000]))
    def leaf(self, t):
        r = self.r; c = self.of(t)
        if t[0] == "i":
            if r.random() < .25 or not c:
                k = self.of(("l", 8), ("l", 16))
                return var(r.choice(k)) if k and r.random() < .4 else self.literal()
            if not self.core or r.random() < .15:
                o = [n for n, u in self.vars.items() if u[0] == "i" and u[1] <= t[1]] or c
                return var(r.choice(o))
            return var(r.choice(c))
        if t[0] == "f" and not c: return dict(k="flit", v=r.randrange(1, 5))
        return var(r.choice(c)) if c else None
    def expr(self, t, d=0):
        r = self.r
        if t[0] == "b":
            return self.cmp(d)
        if d > 1 or r.random() < .12: return self.leaf(t)
        a = self.expr(t, d + 1)
        if t[0] in "ft": return dict(k="bin", op=r.choice("+-*"), a=a, b=self.expr(t, d + 1))
        op = r.choice(["+", "-", "*", "+", "-", "*", "&", "^", "//", "%", "<<", ">>"] + ([] if self.core else ["|"]))
        if op in ("<<", ">>"): b = lit(r.randrange(0, 4))
        elif op in ("//", "%"): b = lit(r.choice([2, 3, 5, -2, -3, 7])) if r.random() < .7 else self.expr(t, d + 1)
        elif r.random() < .08 and self.of(("b", 1)): b = var(r.choice(self.of(("b", 1)))); self.feat.add("bool arithmetic")
        else: b = self.expr(t, d + 1)
        self.feat.add(op)
        return dict(k="bin", op=op, a=a, b=b)
    def cmp(self, d=0):
        r = self.r
        t = r.choice([u for u in set(self.vars.values()) if u[0] in "if"] or [("i", 8)])
        self.feat.add("float comparison" if t[0] == "f" else "comparison")
        return dict(k="cmp", op=r.choice(["<", ">=", "==", "!="] + ([] if self.core else ["<=", ">"])), a=self.expr(t, d + 1), b=self.expr(t, d + 1))
    def setv(self, n, e, out, ind):
        self.sets[n] = self.sets.get(n, 0) + 1
        out.append(dict(k="set", n=n, e=e, once=False)); self.lines.append(SP * ind + f"{n} = {self.text(e)}")
    def new(self, out, ind, t=None, e=None):
        t = t or self.r.choice([u for u in set(self.vars.values()) if u[0] not in "bl"])
        e = e or (self.anchored(t) if self.core else self.expr(t))
        n = self.fresh(); self.setv(n, e, out, ind); self.vars[n] = t; return n
    def has_var(self, e): return e["k"] == "var" or any(isinstance(x, dict) and self.has_var(x) for x in e.values())
    def anchored(self, t):
        """an expression of exactly this type"""
        for _ in range(40):
            e = self.expr(t)
            if t[0] != "i": return e
            if self.exact(e, t[1]): return e
        return var(self.r.choice(self.of(t)))
    def exact(self, e, w):
        """its width is w whatever the literals in it are"""
        if e["k"] == "var": return self.vars[e["n"]] == ("i", w)
        if e["k"] == "bin":
            a, b = self.exact(e["a"], w), self.exact(e["b"], w)
            return (a and (b or self.lit(e["b"], w))) or (b and self.lit(e["a"], w))
        return False
    def lit(self, e, w): return e["k"] == "lit" or (e["k"] == "var" and self.vars[e["n"]][0] == "l" and self.vars[e["n"]][1] <= w)
    def loop(self, out, ind):
        r = self.r
        b = []
        form = r.randrange(3) if not self.core else r.choice([0, 1, 2])
        carried = [n for n in self.vars if self.vars[n][0] not in ("b" if not self.core and r.random() < .3 else "bl") and n not in [p["n"] for p in self.params]]
        if not carried: carried = [self.new(out, ind)]
        lo, hi, st = r.randrange(0, 3), r.randrange(0, 5), r.choice([1, 1, 2, 3] + ([] if self.core else [-1]))
        i = self.fresh("i")
        def bound(v):
            if r.random() < .3: return self.named(v, out, ind)
            return lit(v)
        L, H, S = lit(0), bound(hi), lit(1)
        if form > 0: L = bound(lo)
        if form > 1: S = lit(st)
        args = [H] if form == 0 else [L, H] if form == 1 else [L, H, S]
        self.lines.append(SP * ind + f"for {i} in range({', '.join(self.text(x) for x in args)}):")
        s = dict(k="for", n=i, lo=L, hi=H, st=S, body=b)
        saved = dict(self.vars)
        if not self.core and r.random() < .4: self.vars[i] = ("i", 32); self.feat.add("loop variable")
        elif self.core and r.random() < .4: self.vars[i] = ("i", 32)
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .25: self.new(b, ind + 1)
            elif k < .4 and not self.core and ind < 2: self.branch(b, ind + 1)
            else:
                n = r.choice(carried); e = self.anchored(saved[n])
                if self.core: e = dict(k="bin", op=r.choice("+-*"), **dict(zip("ab", r.sample([var(n), e], 2))))
                self.setv(n, e, b, ind + 1)
        self.vars = saved if self.core or r.random() < .7 else {**self.vars, **saved}
        out.append(s)
    def named(self, v, out, ind):
        n = self.fresh("k"); self.setv(n, lit(v), out, ind)
        if not self.core or self.r.random() < .5: self.vars[n] = ("l", 8)
        return var(n)
    def branch(self, out, ind, ret=None):
        r = self.r
        c = var(r.choice(self.of(("b", 1)))) if self.of(("b", 1)) and r.random() < .6 else None
        if c is None: c = self.cmp()
        pool = [n for n in self.vars if self.vars[n][0] in "ift" and n not in [p["n"] for p in self.params]]
        if ret is None and not pool: pool = [self.new(out, ind)]
        targets = [] if ret else r.sample(pool, min(len(pool), r.randrange(1, 3)))
        self.lines.append(SP * ind + f"if {self.text(c)}:")
        s = dict(k="if", c=c, a=[], b=[])
        for side in ("a", "b"):
            saved = dict(self.vars)
            if side == "b":
                if not self.core and r.random() < .2 and not ret: break
                self.lines.append(SP * ind + "else:")
            if r.random() < .3: self.new(s[side], ind + 1)
            l = list(targets)
            if r.random() < .4: l.reverse()
            for n in l:
                if not self.core and r.random() < .15: continue
                self.setv(n, self.anchored(saved[n]), s[side], ind + 1)
            if ret: self.ret(s[side], ind + 1, ret)
            elif not s[side]: self.new(s[side], ind + 1)
            self.vars = saved
        out.append(s)
        return targets
    def ret(self, out, ind, t):
        e = self.anchored(t); out.append(dict(k="ret", e=e)); self.lines.append(SP * ind + f"return {self.text(e)}")
    def build(self):
        r = self.r
        fam = r.choice(["int", "int", "int", "int", "float", "tensor", "mixed"])
        for j in range(r.randrange(1, 5)):
            t = {"int": ("i", r.choice([8, 16])), "float": ("f", 0), "tensor": ("t", r.choice([16, 16, 32])), "mixed": ("i", r.choice([8, 16, 32, 64]))}[fam]
            if fam == "int" and j: t = self.params[0]["ty"]
            if fam == "tensor" and j: t = self.params[0]["ty"]
            n = f"p{j}"; self.params.append(dict(n=n, ty=t, secret=j == 0 or r.random() < .5)); self.vars[n] = t
        if r.random() < .5:
            n = "c"; self.params.append(dict(n=n, ty=("b", 1), secret=r.random() < .5)); self.vars[n] = ("b", 1)
        r.shuffle(self.params)
        body = []
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            if k < .5: self.new(body, 1)
            elif k < .6: n = self.fresh("v"); e = self.literal(small=False); self.setv(n, e, body, 1); self.vars[n] = ("l", next(w for w in (8, 16) if -2**(w - 1) <= e["v"] < 2**(w - 1)))
            elif k < .68 and self.of(*[u for u in set(self.vars.values()) if u[0] in "if"]): n = self.fresh("b"); self.setv(n, self.cmp(), body, 1); self.vars[n] = ("b", 1)
            elif k < .74 and self.of(("i", 8), ("i", 16)): self.cast(body)
            elif k < .87: self.loop(body, 1)
            else: self.branch(body, 1)
        t = r.choice([u for u in set(self.vars.values()) if u[0] not in "bl" and self.of(u)])
        if r.random() < .15: self.branch(body, 1, ret=t)
        else: self.ret(body, 1, t)
        self.body = body
        self.mark(body, False)
        for p in self.params:
            k, w = p["ty"]
            a = f"Tensor[[{NT}], {TY['i', w]}]" if k == "t" else TY[p["ty"]]
            p["ann"] = f"Secret[{a}]" if p["secret"] else a
        self.src = "def main(" + ", ".join(f"{p['n']}: {p['ann']}" for p in self.params) + "):\n" + "\n".join(self.lines) + "\n"
        return self
    def cast(self, out):
        r = self.r
        n = r.choice(self.of(("i", 8), ("i", 16)) + self.of(("b", 1))); w = r.choice([x for x in (8, 16, 32) if x != self.vars[n][1]])
        m = self.fresh(); self.setv(m, dict(k="cast", w=w, tw=w, a=var(n)), out, 1); self.vars[m] = ("i", w); self.feat.add("cast")
    def mark(self, b, inside):
        for s in b:
            if s["k"] == "set": s["once"] = self.sets[s["n"]] == 1
            elif s["k"] == "for": self.mark(s["body"], True)
            elif s["k"] == "if": self.mark(s["a"], True); self.mark(s["b"], True)
    def inputs(self, n):
        r = self.r; res = []
        for _ in range(n):
            x = []
            for p in self.params:
                k, w = p["ty"]
                one = lambda: r.randrange(2) if k == "b" else r.choice([0, 1, 2, 3, -1, -2, r.randrange(-9, 10), r.randrange(-9, 10)] + ([r.randrange(-100, 100)] if k != "f" else []))
                x.append([one() for _ in range(NT if k == "t" else 1)])
            res.append(x)
        return res

def python(c, fns, inputs):
    env = dict(os.environ, PYTHONPATH="/repo/frontend:/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=c.work)
    cmds = [json.dumps(dict(src=f["src"], name="main", kinds=[p["ty"][0] for p in f["params"]], inputs=i)) for f, i in zip(fns, inputs)]
    n = 8
    ps = []
    for k in range(n):
        p = subprocess.Popen(["/opt/vp/venv/bin/python", "-W", "ignore", hv.VERIF + "/tools/pyfront.py"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(f"{c.work}/py{k}.err", "w"), text=True, env=env, cwd=c.work)
        ps.append(p)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda k: ps[k].communicate("".join(x + "\n" for x in cmds[k::n]), timeout=600)[0].splitlines(), range(n)))
    res = [None] * len(cmds)
    for k in range(n):
        if ps[k].returncode != 0 or len(outs[k]) != len(cmds[k::n]): raise hv.Broken("pyfront: " + open(f"{c.work}/py{k}.err").read()[-800:])
        for j, x in enumerate(outs[k]): res[k + j * n] = json.loads(x)
    return res

def mtype(t, secret):
    e = t["e"] if t["k"] == "tensor" else t
    return dict(sh=t["sh"] if t["k"] == "tensor" else [], t=e["k"], w=e.get("w", 0), secret=secret)

def declared(p):
    k, w = p["ty"]
    return dict(sh=[NT] if k == "t" else [], t="float" if k == "f" else "int", w=32 if k == "f" else w, secret=p["secret"])

def signature(m):
    f = next(o for o in m["r"][0][0]["ops"] if o["op"] == "func.func" and o["a"]["sym_name"] == "main")
    ts = f["r"][0][0]["t"]; at = f["a"].get("arg_attrs") or [{} for _ in ts]
    return [mtype(t, "secret.secret" in a) for t, a in zip(ts, at)]

def record(f):
    return dict(params=[dict(n=p["n"], t="i" if p["ty"][0] == "t" else p["ty"][0], w=p["ty"][1]) for p in f["params"]], body=f["body"])

def judge(c, label, fns, ins, strict):
    ans = python(c, fns, ins)
    mods, idx = [], []
    for n, (f, a) in enumerate(zip(fns, ans)):
        key = label + ":" + hashlib.sha256(f["src"].encode()).hexdigest()[:10]
        f["key"] = key
        if "bad" in a: raise hv.Broken("generated program is not Python: " + a["bad"] + "\n" + f["src"])
        if "err" in a:
            if strict: c.fail(key, dict(text=f["src"], err=a["err"]), "the frontend refuses a function it documents support for")
            else: c.count("refused"); d = c.notes.setdefault("refusals", {}); m = "".join(x for x in a["err"] if not x.isdigit())[:60]; d[m] = d.get(m, 0) + 1
            continue
        mods.append(a["mlir"]); idx.append(n)
    res = c.opt(mods, ["--shape-inference"])
    recs = []
    for text, n, x in zip(mods, idx, res):
        f, key = fns[n], fns[n]["key"]
        rp = dict(text=f["src"], mlir=text)
        if x.get("crash"): c.fail(key, dict(rp, crash=x["crash"]), "heir-opt dies on what the frontend emits"); continue
        if x["after"] is None:
            if strict: c.fail(key, dict(rp, err=x["err"]), "heir-opt rejects what the frontend emits")
            else:
                c.count("rejected"); d = c.notes.setdefault("rejections", {})
                m = (x["err"] or "").split("error: ")[-1].split("\n")[0][:60]; d[m] = d.get(m, 0) + 1
            continue
        try: p, types = programs.program(x["after"], "main", norm.Norm(floats="int"))
        except norm.Unsupported as e:
            c.count("unsupported"); d = c.notes.setdefault("unsupported_ops", {}); d[str(e)[:60]] = d.get(str(e)[:60], 0) + 1; continue
        kinds = [q["ty"][0] for q in f["params"]]
        minp = [dict(args=[a if k == "t" else a[0] for a, k in zip(i, kinds)], heap=[]) for i in ins[n]]
        recs.append(dict(key=key, text=f["src"], mlir=text, **record(f), inputs=ins[n], minputs=minp, py=[y or [] for y in ans[n]["py"]],
                         prog=p, sig=signature(x["after"]), declared=[declared(q) for q in f["params"]]))
    c.count("programs", len(recs)); c.count("n_" + label, len(recs))
    c.check("Frontend", recs, label=label, what="the compiled function differs from Python")

def run(c):
    r = c.rng
    n = c.scale(400, 3000)
    for label, core, m in (("supported", True, n), ("any", False, n)):
        fs = [Fn(r, core).build() for _ in range(m)]
        for f in fs:
            for x in f.feat: c.count("with_" + x)
        judge(c, label, [f.__dict__ for f in fs], [f.inputs(c.scale(5, 8)) for f in fs], core)
