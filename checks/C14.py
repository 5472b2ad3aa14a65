"""C14: data-oblivious rewriting: same results, and nothing secret shows in control flow or addresses."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, programs
LEVEL = "translation_validation"
PIPES = {"extract": ["--convert-secret-extract-to-static-extract"], "insert": ["--convert-secret-insert-to-static-insert"],
         "while": ["--convert-secret-while-to-static-for"], "for": ["--convert-secret-for-to-static-for"], "for-secret": ["--convert-secret-for-to-static-for=convert-all-scf-for=false"],
         "if": ["--convert-if-to-select"]}
ALL = ["--convert-to-data-oblivious"]
T = "tensor<4xi8>"
SIG = [("s0", "i8", 1), ("s1", "i8", 1), ("si", "index", 1), ("sj", "index", 1), ("st", T, 1), ("p0", "i8", 0), ("pi", "index", 0), ("pt", T, 0)]

# Secrets that reach a value only through which branch was taken are lost between the steps of the rewriting.
IMPLICIT = "func.func @main(" + ", ".join(f"%{a}: {t}" + (" {secret.secret}" if s else "") for a, t, s in SIG) + """) -> i8 {
  %zero = arith.constant 0 : i8
  %one = arith.constant 1 : i8
  %v = tensor.extract %pt[%si] : tensor<4xi8>
  %w = scf.while (%a = %v) : (i8) -> i8 {
    %c = arith.cmpi sgt, %a, %zero : i8
    scf.condition(%c) %a : i8
  } do {
  ^bb0(%b: i8):
    %d = arith.subi %b, %one : i8
    scf.yield %d : i8
  } attributes {max_iter = 127 : i64}
  return %w : i8
}"""
REFUSE = lambda text, err: "cannot be used as a symbol" in (err or "")     # public bounds that affine loops do not take

class Obl(gen.Gen):
    """Values carry how secrets reach them: 0 not at all, 1 only through the choice of a branch or the length of a loop, 2 as data."""
    def put(self, kind, x, lv): self.add(kind, (x, lv)); return x
    def v(self, kind="v", ok=(0, 1, 2)):
        l = [x for x in self.all(kind) if x[1] in ok]
        return self.r.choice(l[-6:] if self.r.random() < .6 else l)
    def arith(self):
        (a, la), (b, lb) = self.v(), self.v()
        if a == b: (a, la), (b, lb) = ("%s0", 2), ("%s1", 2)        # x - x is no secret
        x = self.fresh()
        self.emit(f"{x} = arith.{self.r.choice(['addi', 'subi', 'muli', 'xori', 'maxsi'])} {a}, {b} : i8")
        self.put("v", x, max(la, lb))
    def index(self):
        """An index below four, from a value."""
        if self.r.random() < .5: return self.v("ix", (0, 2))
        a, la = self.v(ok=(0, 2))
        c, d, x = self.fresh("c"), self.fresh(), self.fresh("x")
        self.emit(f"{c} = arith.constant 3 : i8"); self.emit(f"{d} = arith.andi {a}, {c} : i8")
        self.emit(f"{x} = arith.index_cast {d} : i8 to index")
        self.put("ix", x, la)
        return x, la
    def extract(self):
        t, lt = self.v("t"); i, li = self.index(); x = self.fresh()
        self.emit(f"{x} = tensor.extract {t}[{i}] : {T}"); self.put("v", x, max(lt, 1 if li else 0))    # rewritten to branches
    def insert(self):
        t, lt = self.v("t"); i, li = self.index(); a, la = self.v(); x = self.fresh("t")
        self.emit(f"{x} = tensor.insert {a} into {t}[{i}] : {T}"); self.put("t", x, max(lt, 1 if li else 0, la))
    def cond(self, ok=(0, 1, 2)):
        (a, la), (b, lb) = self.v(ok=ok), self.v(ok=ok)
        x = self.fresh("b")
        self.emit(f"{x} = arith.cmpi {self.r.choice(['slt', 'sge', 'eq', 'ne', 'ult'])}, {a}, {b} : i8")
        return x, max(la, lb)
    def branch(self, depth):
        c, lc = self.cond()
        two = self.r.random() < .4; tk = self.r.random() < .3
        ts = (["i8"] + (["i8"] if two else []) + ([T] if tk else []))
        res = [self.fresh("f") for _ in ts]
        self.emit(f"{', '.join(res)} = scf.if {c} -> ({', '.join(ts)}) {{")
        lv = [0] * len(ts)
        for part in (0, 1):
            self.push(); self.body(self.r.randrange(0, 4), depth - 1)
            ys = [self.v("v" if t == "i8" else "t") for t in ts]
            lv = [y[1] if part == 0 or a == y[1] else 1 for a, y in zip(lv, ys)]      # one of the branches may be dead
            self.emit(f"scf.yield {', '.join(y[0] for y in ys)} : {', '.join(ts)}"); self.pop()
            self.emit("} else {" if part == 0 else "}")
        for r, t, l in zip(res, ts, lv): self.put("v" if t == "i8" else "t", r, max(l, 1 if lc else 0))
    def loop(self, depth):
        lo, llo = ("%zero", 0) if self.r.random() < .6 else self.index()
        hi, lhi = self.index()
        step = self.r.choice([1, 1, 2]) if depth == self.top else 1     # others are not hoisted out of branches, with an error
        if self.r.random() < .3: hi, lhi = "%four", 0
        two = self.r.random() < .4
        ts = ["i8"] + ([T] if two else [])
        inits = [self.v("v", (2,)), self.v("t", (2,))][:len(ts)]
        iv = self.fresh("k"); acc = [self.fresh("a") for _ in ts]; res = [self.fresh("l") for _ in ts]
        self.emit(f"{', '.join(res)} = scf.for {iv} = {lo} to {hi} step %step{step} iter_args({', '.join(f'{a} = {b[0]}' for a, b in zip(acc, inits))}) -> ({', '.join(ts)}) {{")
        self.push()
        self.put("ix", iv, 0) if not (llo or lhi) else self.put("ix", iv, 0)
        self.put("v", acc[0], 2)
        if two: self.put("t", acc[1], 2)
        self.body(self.r.randrange(1, 4), depth - 1)
        ys = [self.v("v")] + ([self.v("t")] if two else [])
        self.emit(f"scf.yield {', '.join(y[0] for y in ys)} : {', '.join(ts)}"); self.pop()
        self.emit("} {lower = 0 : i64, upper = 4 : i64}")
        for r, t in zip(res, ts): self.put("v" if t == "i8" else "t", r, 2)
    def loopw(self, depth):
        """At most five rounds of a loop that ends on a secret."""
        a, b, c, d = self.fresh("a"), self.fresh("a"), self.fresh("a"), self.fresh("a")
        r1, r2 = self.fresh("w"), self.fresh("w")
        i1 = self.v("v", (2,)); i2 = self.v("v", (2,))
        m, n0, cn = self.fresh(), self.fresh(), self.fresh("b")
        self.emit(f"{m} = arith.andi {i1[0]}, %three : i8")      # rounds left: 0..3
        swap = self.o.get("swap") and self.r.random() < .5
        self.emit(f"{r1}, {r2} = scf.while ({a} = {m}, {b} = {i2[0]}) : (i8, i8) -> (i8, i8) {{")
        self.push(); x = self.fresh()
        self.emit(f"{cn} = arith.cmpi sgt, {a}, %czero : i8")
        self.emit(f"scf.condition({cn}) {b if swap else a}, {a if swap else b} : i8, i8"); self.pop()
        self.emit("} do {"); self.emit(f"^bb0({c}: i8, {d}: i8):")
        self.push(); self.put("v", c, 2); self.put("v", d, 2)
        self.body(self.r.randrange(0, 3), depth - 1)
        x = self.fresh(); y = self.v("v")
        if self.r.random() < .5:
            x2 = self.fresh(); self.emit(f"{x2} = arith.addi {d}, {y[0]} : i8"); y = (x2, 2)
        self.emit(f"{x} = arith.subi {d if swap else c}, %one : i8")
        self.emit(f"scf.yield {x}, {y[0]} : i8, i8"); self.pop()
        self.emit("} attributes {max_iter = 5 : i64}")
        self.put("v", r1, 2); self.put("v", r2, 2)
    def body(self, n, depth):
        for _ in range(n):
            c = self.r.random()
            if c < .3: self.arith()
            elif c < .45: self.extract()
            elif c < .58: self.insert()
            elif c < .76 and depth > 0 and self.o["ifs"]: self.branch(depth)
            elif c < .9 and depth > 0 and self.o["loops"]: self.loop(depth)
            elif depth > 0 and self.o["whiles"]: self.loopw(depth)
    def build(self, n=7, depth=2, generic=False, **o):
        self.top = depth; self.o = dict(dict(ifs=True, loops=True, whiles=True), **o)
        for a, t, s in SIG: self.put("v" if t == "i8" else "ix" if t == "index" else "t", "%" + a, 2 * s)
        for x, v, t in (("%zero", 0, "index"), ("%four", 4, "index"), ("%step1", 1, "index"), ("%step2", 2, "index"), ("%three", 3, "i8"), ("%czero", 0, "i8"), ("%one", 1, "i8")):
            self.emit(f"{x} = arith.constant {v} : {t}")
        self.put("v", "%three", 0)
        self.body(n, depth)
        rs = [self.v("v", (1, 2))[0], self.v("t", (1, 2))[0]]
        t = self.text()
        ra, rt = (f"{rs[0]}, {rs[1]}", f"i8, {T}")
        if not generic:
            sg = ", ".join(f"%{a}: {t_}" + (" {secret.secret}" if s else "") for a, t_, s in SIG)
            return f"func.func @main({sg}) -> ({rt}) {{\n{t}\n  return {ra} : {rt}\n}}"
        st = lambda t_: f"!secret.secret<{t_}>"
        sec = [x for x in SIG if x[2]]
        sg = ", ".join(f"%{'o' if s else ''}{a}: {st(t_) if s else t_}" for a, t_, s in SIG)
        return (f"func.func @main({sg}) -> ({st('i8')}, {st(T)}) {{\n  %g0, %g1 = secret.generic({', '.join(f'%o{a}: {st(t_)}' for a, t_, _ in sec)}) {{\n  ^body({', '.join(f'%{a}: {t_}' for a, t_, _ in sec)}):\n{t}\n"
                f"  secret.yield {ra} : {rt}\n  }} -> ({st('i8')}, {st(T)})\n  return %g0, %g1 : {st('i8')}, {st(T)}\n}}")

def make_inputs(rng, types, n, _=None):
    res = []
    one = lambda t: rng.randrange(-128, 128) if t == "i8" else rng.randrange(4) if t == "index" else [rng.randrange(-128, 128) for _ in range(4)]
    for g in range(2):
        pub = {a: one(t) for a, t, s in SIG if not s}
        for _ in range(n // 2): res.append(dict(args=[one(t) if s else pub[a] for a, t, s in SIG], heap=[], g=g))
    return res

def run(c):
    c.build("hopt")
    rng = c.rng
    def mk(**o): return Obl(rng).build(generic=rng.random() < .4, **o)
    for name, o in (("extract", dict(ifs=False, loops=False, whiles=False)), ("insert", dict(ifs=False, loops=False, whiles=False)), ("while", {}), ("for", {}), ("for-secret", {}), ("if", dict(loops=False, whiles=False))):
        mods = [mk(**o) for _ in range(c.scale(20, 400))]
        programs.compare(c, name, PIPES[name], mods, rng, ninputs=6, make_inputs=make_inputs, accept_refusal=REFUSE)
    mods = [mk(n=rng.randrange(3, 8)) for _ in range(c.scale(140, 3000))]
    for k in range(0, len(mods), 140):
        programs.compare(c, "oblivious", ALL, mods[k:k + 140], rng, ninputs=8, make_inputs=make_inputs, accept_refusal=REFUSE, extra=dict(oblivious=1),
                         what="rewritten program differs from its source or shows secrets")
    mods = [mk(n=4) for _ in range(c.scale(30, 400))]
    programs.compare(c, "loops", ALL, mods, rng, ninputs=8, make_inputs=make_inputs, accept_refusal=REFUSE, extra=dict(oblivious=1), what="rewritten loop differs from its source or shows secrets")
    mods = [mk(n=4, swap=True) for _ in range(c.scale(20, 400))]        # loops that pass on other values than they got are left alone
    programs.compare(c, "general", ALL, mods, rng, ninputs=8, make_inputs=make_inputs, accept_refusal=REFUSE, what="rewritten loop differs from its source")
    programs.compare(c, "implicit", ALL, [IMPLICIT], rng, ninputs=8, make_inputs=make_inputs, extra=dict(oblivious=1), what="a branch on a secret over public values leaves a value that later steps take to be public")
