"""C18: modular, residue-number and polynomial arithmetic lowers to the integer arithmetic it denotes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, norm, programs
from math import gcd

def mt(q, w): return f"!mod_arith.int<{q} : i{w}>"
def rt(qs, w): return "!rns.rns<" + ", ".join(mt(q, w) for q in qs) + ">"
def tt(n, t): return t if n is None else f"tensor<{n}x{t}>"

PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127]

def modulus(r, w):
    """every modulus that fits the storage type, the extremes often"""
    top = min(2**(w - 1) - 1, 29999)
    return r.choice([top, top - 1, r.randrange(2, top + 1), r.randrange(2, top + 1), max(2, top // 2 + 1), 2, 3])

def basis(r, w, n, odd=True, avoid=()):
    top = 2**(w - 1) - 1
    for _ in range(200):
        qs = []
        while len(qs) < n:
            q = r.randrange(3 if odd else 2, min(top, 40) + 1)
            if odd: q |= 1
            if q > top or any(gcd(q, x) > 1 for x in qs): 
                if r.random() < .05: break
                continue
            qs.append(q)
        if len(qs) == n: return qs
    return PRIMES[:n]

class Mod(gen.Gen):
    """mod_arith programs; values are tracked per type (text)."""
    def mods(self, ws=(3, 4, 5, 6, 7, 8, 16, 32), nt=2):
        r = self.r
        self.ty = []
        for _ in range(nt):
            w = r.choice(ws)
            self.ty.append((modulus(r, w), w))
        self.n_ten = r.choice([2, 3])
        self.args, self.argt = [], []

    def arg(self, t):
        x = f"%a{len(self.args)}"; self.args.append(x); self.argt.append(t); self.add(t, x); return x

    def get(self, t, mk=True):
        v = self.pick(t)
        if v is None or (mk and self.r.random() < .15): v = self.constant(t) or v
        return v

    def constant(self, t):
        for q, w in self.ty:
            if t == mt(q, w):
                x = self.fresh("c"); v = self.r.choice([0, 1, q - 1, q // 2, self.r.randrange(q), self.r.randrange(q), -1, -self.r.randrange(1, q + 1)])
                self.emit(f"{x} = mod_arith.constant {v} : {t}"); return self.add(t, x)
            if t == tt(self.n_ten, mt(q, w)):
                x = self.fresh("c"); l = [self.r.choice([0, 1, q - 1, self.r.randrange(q), -self.r.randrange(1, q + 1)]) for _ in range(self.n_ten)]
                self.emit(f"{x} = mod_arith.constant dense<{l}> : {t}"); return self.add(t, x)
            if t == f"i{w}":
                x = self.fresh("k"); hi = 2**(w - 1)
                v = self.r.choice([0, 1, -1, hi - 1, -hi, q if q < hi else 0, q - 1, self.r.randrange(-hi, hi)])
                if abs(v) >= 2**29: v = self.r.randrange(-2**20, 2**20)
                self.emit(f"{x} = arith.constant {v} : {t}"); return self.add(t, x)
        return None

    def step(self, depth=1):
        r = self.r
        q, w = r.choice(self.ty); ten = r.random() < .3
        n = self.n_ten if ten else None
        t = tt(n, mt(q, w)); it = tt(n, f"i{w}")
        k = r.random()
        if k < .5:
            op = r.choice(["add", "sub", "mul", "add", "sub", "mul", "mac"])
            vs = [self.get(t) for _ in range(3 if op == "mac" else 2)]
            if op != "mac" and r.random() < .1: vs[1] = vs[0]
            x = self.fresh(); self.emit(f"{x} = mod_arith.{op} {', '.join(vs)} : {t}"); self.add(t, x)
        elif k < .6:
            i = self.pick(it)
            if i is None: i = self.constant(it) if not ten else None
            if i is None: return
            a, x = self.fresh("e"), self.fresh()
            self.emit(f"{a} = mod_arith.encapsulate {i} : {it} -> {t}")
            self.emit(f"{x} = mod_arith.reduce {a} : {t}"); self.add(t, x)
        elif k < .72:
            x = self.fresh("s"); kind = r.choice(["standard", "centered"])
            if q == 2**(w - 1) - 1: kind = "standard"          # centred: the recorded finding
            self.emit(f"{x} = mod_arith.lift {kind} {self.get(t)} : {t} -> {it}"); self.add(it, x)
        elif k < .8:
            q2, w2 = r.choice(self.ty)
            x = self.fresh("w")
            a, b = (tt(n, mt(*k)) for k in ((q, w), (q2, w2)))
            self.emit(f"{x} = mod_arith.mod_switch {self.get(a)} : {a} to {b}"); self.add(b, x)
        elif k < .86:
            tv = tt(self.n_ten, mt(q, w)); c = self.const(r.randrange(self.n_ten), "index"); x = self.fresh("x")
            if r.random() < .5:
                self.emit(f"{x} = tensor.extract {self.get(tv)}[{c}] : {tv}"); self.add(mt(q, w), x)
            else:
                self.emit(f"{x} = tensor.insert {self.get(mt(q, w))} into {self.get(tv)}[{c}] : {tv}"); self.add(tv, x)
        elif k < .9:
            tv = tt(self.n_ten, mt(q, w)); vs = [self.get(mt(q, w)) for _ in range(self.n_ten)]; vs[0] = self.r.choice([a for a, b in zip(self.args, self.argt) if b == mt(q, w)]); x = self.fresh("p")
            self.emit(f"{x} = tensor.from_elements {', '.join(vs)} : {tv}"); self.add(tv, x)
        elif depth > 0:
            t = mt(q, w)
            init = self.get(t); lo, hi, st = self.const(0, "index"), self.const(r.choice([0, 1, 2, 3]), "index"), self.const(r.choice([1, 1, 2]), "index")
            res, acc, iv = self.fresh("l"), self.fresh("a"), self.fresh("i")
            self.emit(f"{res} = scf.for {iv} = {lo} to {hi} step {st} iter_args({acc} = {init}) -> ({t}) {{")
            self.push(); self.add(t, acc)
            for _ in range(r.randrange(1, 4)): self.step(depth - 1)
            v = self.get(t, False); self.emit(f"scf.yield {v} : {t}"); self.pop(); self.emit("}"); self.add(t, res)

    def finish(self, outs=None):
        l = [(t, x) for s in self.scopes for t, xs in s.items() for x in xs if t.startswith("!") or t.startswith("tensor") or t.startswith("i")
             if t not in ("ix", "index") and x not in self.args and not x.startswith("%c")]
        l = [(t, x) for t, x in l if isinstance(x, str)]
        if not l: l = [(self.argt[0], self.args[0])]
        out = [l[-1]] + self.r.sample(l, min(len(l), outs if outs is not None else self.r.randrange(0, 3)))
        sig = ", ".join(f"{x}: {t}" for x, t in zip(self.args, self.argt))
        self.emit(f"return {', '.join(x for _, x in out)} : {', '.join(t for t, _ in out)}")
        return f"func.func @main({sig}) -> ({', '.join(t for t, _ in out)}) {{\n{self.text()}\n}}\n"

def scalar(r, ws=(3, 4, 5, 6, 7, 8, 16, 32), n=None):
    g = Mod(r); g.mods(ws)
    for q, w in g.ty:
        g.arg(mt(q, w)); g.arg(mt(q, w))
        if r.random() < .5: g.arg(tt(g.n_ten, mt(q, w)))
        if r.random() < .5: g.arg(f"i{w}")
        if r.random() < .3: g.arg(tt(g.n_ten, f"i{w}"))
    for _ in range(n or r.randrange(2, 9)): g.step()
    return g.finish()

def folds(r):
    """few variables, many constants: the canonicalization patterns"""
    g = Mod(r); g.mods((4, 5, 8), nt=1)
    q, w = g.ty[0]; t = mt(q, w); ten = r.random() < .25
    if ten: t = tt(g.n_ten, t)
    x, y = g.arg(t), g.arg(t)
    for _ in range(r.randrange(2, 7)):
        def leaf():
            if r.random() < .55: return g.constant(t)
            return g.pick(t)
        op = r.choice(["add", "sub", "mul", "mul", "add", "sub", "mac"])
        vs = [leaf() for _ in range(3 if op == "mac" else 2)]
        if r.random() < .4:                       # the negative one patterns
            m1 = g.fresh("c"); g.emit(f"{m1} = mod_arith.constant {'dense<%s>' % ([q - 1] * g.n_ten) if ten else q - 1} : {t}")
            m = g.fresh(); g.emit(f"{m} = mod_arith.mul {g.pick(t)}, {m1} : {t}"); g.add(t, m); vs[r.randrange(2)] = m
        v = g.fresh(); g.emit(f"{v} = mod_arith.{op} {', '.join(vs)} : {t}"); g.add(t, v)
    return g.finish()

def barrett(r):
    """barrett_reduce followed by subifge is the remainder for x < q^2"""
    q = r.choice([3, 5, 7, 9, 11, 13, 15, 17, 31, 64, 100, 127, 255, 256, 257, 300, 500, 511])
    w = (q - 1).bit_length(); b = min(16, r.choice([w, 2 * w, min(2 * w, w + 1)]))
    n = r.choice([None, None, 3]); t = tt(n, f"i{b}")
    out = [f"func.func @main(%x: {t}) -> ({t}, {t}) {{"]
    if 2**b > q * q:                       # stay below q^2
        if n: out.append(f"  %m = arith.constant dense<{q * q - 2**b if q * q >= 2**(b - 1) else q * q}> : {t}")
        else: out.append(f"  %m = arith.constant {q * q - 2**b if q * q >= 2**(b - 1) else q * q} : {t}")
        out.append(f"  %y = arith.remui %x, %m : {t}")
    else: out.append(f"  %y = arith.addi %x, %x : {t}")
    if q < 2**b:
        c = q - 2**b if q >= 2**(b - 1) else q
        out.append(f"  %q = arith.constant {'dense<%d>' % c if n else c} : {t}")
    out += [f"  %z = mod_arith.barrett_reduce %y {{ modulus = {q} : i{r.choice([64, 64, max(3 * w, b) + 1])} }} : {t}",
            f"  %s = mod_arith.subifge %z, %q : {t}", f"  return %z, %s : {t}, {t}", "}"]
    return "\n".join(out) + "\n"

class Rns(Mod):
    def setup(self, r, w=None, nb=None, lim=None):
        self.w = w or r.choice([6, 7, 8, 8, 16])
        self.nb = nb or r.choice([2, 2, 3, 3, 4])
        self.qs = basis(r, self.w, self.nb)
        self.ty = [(q, self.w) for q in self.qs]; self.n_ten = r.choice([2, 3])
        self.args, self.argt = [], []
        self.R = rt(self.qs, self.w)

    def rconst(self, qs):
        x = self.fresh("c")
        l = ", ".join(f"#mod_arith.value<{self.r.choice([0, 1, q - 1, self.r.randrange(q)])} : {mt(q, self.w)}>" for q in qs)
        self.emit(f"{x} = rns.constant <[{l}]> : {rt(qs, self.w)}"); return self.add(rt(qs, self.w), x)

    def rstep(self):
        r = self.r; k = r.random()
        if k < .5:
            ten = r.random() < .3
            t = tt(self.n_ten, self.R) if ten else self.R
            if ten and not self.pick(t): return
            op = r.choice(["add", "sub", "mul", "mac"])
            vs = [self.pick(t) for _ in range(3 if op == "mac" else 2)]
            x = self.fresh(); self.emit(f"{x} = mod_arith.{op} {', '.join(vs)} : {t}"); self.add(t, x)
        elif k < .6:
            i = r.randrange(self.nb); x = self.fresh("r")
            self.emit(f"{x} = rns.extract_residue {self.pick(self.R)} {{index = {i} : index}} : {self.R} -> {mt(self.qs[i], self.w)}")
            self.add(mt(self.qs[i], self.w), x)
        elif k < .7:
            s = r.randrange(self.nb); n = r.randrange(1, self.nb - s + 1); x = self.fresh("r")
            t = r.choice([self.R, tt(self.n_ten, self.R)]); v = self.pick(t)
            if not v: return
            o = rt(self.qs[s:s + n], self.w); o = o if t == self.R else tt(self.n_ten, o)
            self.emit(f"{x} = rns.extract_slice {v} {{start = {s} : index, size = {n} : index}} : {t} -> {o}"); self.add(o, x)
        elif k < .78:
            vs = [self.get(mt(q, self.w)) for q in self.qs]; x = self.fresh("p")
            self.emit(f"{x} = rns.pack {', '.join(vs)} : {', '.join(mt(q, self.w) for q in self.qs)}"); self.add(self.R, x)
        elif k < .84 and self.o.get("const"):
            self.rconst(self.qs)
        elif k < .92:
            t = mt(*r.choice(self.ty)); op = r.choice(["add", "sub", "mul"]); x = self.fresh()
            self.emit(f"{x} = mod_arith.{op} {self.get(t)}, {self.get(t)} : {t}"); self.add(t, x)
        else:
            t = self.R; it = f"tensor<{self.nb}xi{self.w}>"
            e, x = self.fresh("e"), self.fresh("r")
            v = self.pick(it)
            if not v: return
            self.emit(f"{e} = mod_arith.encapsulate {v} : {it} -> {t}"); self.emit(f"{x} = mod_arith.reduce {e} : {t}"); self.add(t, x)

def rns(r, const=True):
    g = Rns(r); g.o = dict(const=const); g.setup(r)
    g.arg(g.R); g.arg(g.R)
    if r.random() < .5: g.arg(tt(g.n_ten, g.R))
    for q in g.qs: g.arg(mt(q, g.w))
    if r.random() < .5: g.arg(f"tensor<{g.nb}xi{g.w}>")
    for _ in range(r.randrange(2, 8)): g.rstep()
    return g.finish()

def rns_consts(r):
    g = Rns(r); g.o = dict(const=True); g.setup(r)
    g.arg(g.R)
    for _ in range(2): g.rconst(g.qs)
    for _ in range(r.randrange(2, 5)):
        op = r.choice(["add", "sub", "sub", "mul", "mac"]); x = g.fresh()
        g.emit(f"{x} = mod_arith.{op} {', '.join(g.pick(g.R) for _ in range(3 if op == 'mac' else 2))} : {g.R}"); g.add(g.R, x)
        if r.random() < .5: g.rconst(g.qs)
    return g.finish()

def convert(r):
    w = r.choice([6, 7, 8, 8, 16]); n = r.choice([1, 2, 3, 3, 4]); m = r.choice([1, 2, 3])
    src = basis(r, w, n)
    tgt = basis(r, w, m)
    if r.random() < .4 :                     # shared moduli take a shortcut
        tgt[r.randrange(m)] = r.choice(src)
        if any(gcd(a, b) > 1 for i, a in enumerate(tgt) for b in tgt[:i]): tgt = list(dict.fromkeys([r.choice(src)]))
    a, b = rt(src, w), rt(tgt, w)
    return (f"func.func @main(%x: {a}) -> {b} {{\n  %y = rns.convert_basis %x {{targetBasis = {b}}} : {a} -> {b}\n  return %y : {b}\n}}\n")

def crt(r):
    """decomposition into and interpolation from residues"""
    n = r.choice([2, 2, 3]); w = r.choice([4, 5, 6]); qs = basis(r, w, n, odd=False)
    Q = 1
    for q in qs: Q *= q
    if Q > 30000: return crt(r)
    W = max(Q.bit_length() + 1 + r.choice([0, 0, 1, 3]), w)
    big, small = mt(Q, W), rt(qs, w)
    k = r.random()
    if k < .35:
        return (f"func.func @main(%x: {small}) -> {big} {{\n  %y = mod_arith.mod_switch %x : {small} to {big}\n  return %y : {big}\n}}\n")
    if k < .7:
        B = big if r.random() < .6 else mt(r.randrange(2, Q), W)
        return (f"func.func @main(%x: {B}) -> {small} {{\n  %y = mod_arith.mod_switch %x : {B} to {small}\n  return %y : {small}\n}}\n")
    return (f"func.func @main(%x: {small}, %z: {small}) -> {big} {{\n  %p = mod_arith.mul %x, %z : {small}\n  %y = mod_arith.mod_switch %p : {small} to {big}\n"
            f"  %s = mod_arith.add %y, %y : {big}\n  return %s : {big}\n}}\n")


def prime_with(r, n2, w):
    """a prime that has an n2-th root of unity"""
    ps = [q for q in range(n2 + 1, min(2**(w - 1) - 1, 700), n2) if all(q % d for d in range(2, int(q**.5) + 1))]
    return ps

class Poly(gen.Gen):
    """polynomial programs over one ring (and, if it has one, its evaluation form)"""
    def setup(self, kind=None, limbs=None, w=None):
        r = self.r
        self.kind = kind or r.choice(["nega", "nega", "cyc", "gen"])
        self.w = w or r.choice([8, 8, 11, 16, 32])
        nl = limbs if limbs is not None else r.choice([0, 0, 2, 3])
        if self.kind == "nega":
            self.N = r.choice([2, 4, 4, 8] if self.w > 8 else [2, 4])
            ps = prime_with(r, 2 * self.N, self.w)
            self.qs = r.sample(ps, min(max(1, nl), len(ps)))
            if nl and len(self.qs) < 2: nl = 1
            self.m = {0: 1, self.N: 1}
        else:
            self.N = r.choice([2, 3, 4, 5])
            self.qs = basis(r, self.w, max(1, nl)) if nl else [modulus(r, self.w)]
            self.m = {0: -1, self.N: 1}
            if self.kind == "gen":
                lc = r.choice([1, 1, 1, -1, 2, 3])
                if any(gcd(lc, q) > 1 for q in self.qs): lc = 1
                self.m = {i: r.choice([0, 1, -1, 2, 5, r.randrange(-9, 10)]) for i in range(self.N)}
                self.m[self.N] = lc
                if not any(self.m[i] for i in range(self.N)): self.m[0] = 1
        self.rns = bool(nl)
        self.c = rt(self.qs, self.w) if self.rns else mt(self.qs[0], self.w)
        self.P, self.E = self.pt("coeff"), self.pt("eval")
        self.args, self.argt = [], []
        if self.kind == "nega":
            self.roots = []
            for q in self.qs:
                l = [x for x in range(1, q) if pow(x, self.N, q) == q - 1]
                self.roots.append(r.choice(l))

    def pt(self, form, c=None):
        ts = " + ".join(f"{c_}x**{e}" if e else f"{c_}" for e, c_ in sorted(self.m.items()) if c_)
        return f"!polynomial.polynomial<ring=<coefficientType={c or self.c}, polynomialModulus=<{ts}>>, form={form}>"

    def root(self, inv=False):
        l = [f"#mod_arith.value<{pow(x, -1, q) if inv else x} : {mt(q, self.w)}>" for x, q in zip(self.roots, self.qs)]
        v = f"#rns.value<[{', '.join(l)}]>" if self.rns else l[0]
        return f"#polynomial.primitive_root<value = {v}, degree = {2 * self.N} : i64>"

    def arg(self, t):
        x = f"%a{len(self.args)}"; self.args.append(x); self.argt.append(t); self.add(t, x); return x

    def scalar(self):
        r = self.r
        if self.pick(self.c) and (r.random() < .6 or self.o.get("varonly")): return self.pick(self.c)
        x = self.fresh("c")
        if self.rns:
            if not self.o.get("rconst"):
                return self.pick(self.c) or self.arg(self.c)
            l = ", ".join(f"#mod_arith.value<{r.choice([0, 1, q - 1, r.randrange(q)])} : {mt(q, self.w)}>" for q in self.qs)
            self.emit(f"{x} = rns.constant <[{l}]> : {self.c}")
        else:
            q = self.qs[0]
            self.emit(f"{x} = mod_arith.constant {r.choice([0, 1, -1, q - 1, r.randrange(q), -r.randrange(1, q)])} : {self.c}")
        return self.add(self.c, x)

    def pconst(self, t, big=False):
        r = self.r; x = self.fresh("p")
        hi = 10**r.choice([1, 1, 2, 4, 9, 12]) if big else r.choice([3, 9, max(self.qs)])
        if self.rns and self.o.get("limbs"):
            rows = [[r.choice([0, 1, q - 1, r.randrange(q)]) for _ in range(self.N)] for q in self.qs]
            e = ", eval" if t == self.E else ""
            self.emit(f"{x} = polynomial.constant #polynomial.rns_polynomial<dense<{rows}> : tensor<{len(self.qs)}x{self.N}xi{self.w}>{e}> : {t}")
        else:
            ts = [(e, r.choice([1, -1, r.randrange(-hi, hi + 1)])) for e in sorted(r.sample(range(self.N), r.randrange(1, self.N + 1)))]
            ts = [(e, c) for e, c in ts if c] or [(0, 1)]
            self.emit(f"{x} = polynomial.constant int<{' + '.join(f'{c}x**{e}' if e else f'{c}' for e, c in ts)}> : {t}")
        return self.add(t, x)

    def pget(self, t):
        if self.o.get("consts") is None: return self.pick(t)
        if self.pick(t) is None or self.r.random() < self.o["consts"]: return self.pconst(t, self.o.get("big"))
        return self.pick(t)

    def pstep(self):
        r = self.r; k = r.random()
        ev = self.kind == "nega" and not self.o.get("coeff_only")
        T = self.E if ev and self.all(self.E) and r.random() < .35 else self.P
        x = self.fresh()
        if k < .42:
            op = r.choice(["add", "sub", "mul", "mul"])
            self.emit(f"{x} = polynomial.{op} {self.pget(T)}, {self.pget(T)} : {T}"); self.add(T, x)
        elif k < .5:
            self.emit(f"{x} = polynomial.mul_scalar {self.pget(T)}, {self.scalar()} : {T}, {self.c}"); self.add(T, x)
        elif k < .58:
            d = self.const(r.randrange(self.N), "index")
            self.emit(f"{x} = polynomial.monomial {self.scalar()}, {d} : ({self.c}, index) -> {self.P}"); self.add(self.P, x)
        elif k < .68 and ev:
            ev = [x for x in self.all(self.E) if x in self.args]     # not constants: the fold of intt is a known finding
            if r.random() < .5 or not ev:
                rt_ = f" {{root = {self.root()}}}" if self.o.get("roots", True) else ""
                self.emit(f"{x} = polynomial.ntt {self.pget(self.P)}{rt_} : {self.P}"); self.add(self.E, x)
            else:
                rt_ = f" {{root = {self.root(True)}}}" if self.o.get("roots", True) else ""
                self.emit(f"{x} = polynomial.intt {r.choice(ev)}{rt_} : {self.E}"); self.add(self.P, x)
        elif k < .74 and self.kind == "cyc":
            d = self.pick("index") if r.random() < .4 and self.all("index") else self.const(r.randrange(self.N), "index")
            self.emit(f"{x} = polynomial.monic_monomial_mul {self.pget(self.P)}, {d} : ({self.P}, index) -> {self.P}"); self.add(self.P, x)
        elif k < .8:
            t = self.P if r.random() < .6 or not self.all(self.E) else self.E
            tv = f"tensor<{self.N}x{self.c}>"
            self.emit(f"{x} = polynomial.to_tensor {self.pget(t)} : {t} -> {tv}"); self.add(tv, x)
        elif k < .87:
            m = r.randrange(1, self.N + 1); tv = f"tensor<{m}x{self.c}>"
            v = self.pick(tv)
            if not v: v = self.arg(tv)
            self.emit(f"{x} = polynomial.from_tensor {v} : {tv} -> {self.P}"); self.add(self.P, x)
        elif k < .92 and self.o.get("lead"):
            d = self.fresh("d")
            # not for the zero polynomial
            one = self.fresh("p"); self.emit(f"{one} = polynomial.constant int<1> : {self.P}")
            self.emit(f"{d}, {x} = polynomial.leading_term {self.pick(self.P)} : {self.P} -> (index, {self.c})"); self.add("index", d); self.add(self.c, x)
        elif k < .97 and not self.o.get("noapply"):
            a, b, y = self.fresh("k"), self.fresh("k"), self.fresh("e")
            c2, P2 = self.c, self.P
            self.emit(f"{x} = polynomial.apply_coefficientwise ({self.pget(self.P)} : {self.P}) {{")
            self.emit(f"^body({a}: {self.c}, {b}: index):")
            self.push(); self.add(self.c, a)
            v = a
            for _ in range(r.randrange(1, 3)):
                y = self.fresh("e"); op = r.choice(["add", "sub", "mul"])
                self.emit(f"{y} = mod_arith.{op} {v}, {self.pick(self.c)} : {self.c}"); v = self.add(self.c, y)
            self.emit(f"polynomial.yield {v} : {self.c}"); self.pop(); self.emit(f"}} -> {self.P}"); self.add(self.P, x)
        elif self.rns and len(self.qs) > 1:
            s = r.randrange(len(self.qs)); n = r.randrange(1, len(self.qs) - s + 1)
            t = self.P if r.random() < .6 or not self.all(self.E) else self.E
            o = self.pt("coeff" if t == self.P else "eval", rt(self.qs[s:s + n], self.w))
            if o == t: return
            self.emit(f"{x} = polynomial.extract_slice {self.pget(t)} {{start = {s} : index, size = {n} : index}} : {t} -> {o}"); self.add(o, x)

    def finish(self, outs=None, only=None):
        l = [(t, x) for s in self.scopes for t, xs in s.items() for x in xs if x not in self.args and t not in ("v", "ix", "mem", "ten", "b") and not x.startswith("%c")]
        if only: l = [(t, x) for t, x in l if t in only] or [(t, x) for t, x in zip(self.argt, self.args) if t in only]
        if not l: l = [(self.argt[0], self.args[0])]
        out = [l[-1]] + self.r.sample(l, min(len(l), outs if outs is not None else self.r.randrange(0, 3)))
        sig = ", ".join(f"{x}: {t}" for x, t in zip(self.args, self.argt))
        self.emit(f"return {', '.join(x for _, x in out)} : {', '.join(t for t, _ in out)}")
        return f"func.func @main({sig}) -> ({', '.join(t for t, _ in out)}) {{\n{self.text()}\n}}\n"

def poly(r, steps=(1, 6), **o):
    g = Poly(r); g.o = o; g.setup(o.get("kind"), o.get("nlimbs"), o.get("w"))
    if o.get("tensor_io"):
        for x in ("%q0", "%q1"):
            g.emit(f"{x} = polynomial.from_tensor {g.arg(f'tensor<{g.N}x{g.c}>')} : tensor<{g.N}x{g.c}> -> {g.P}"); g.add(g.P, x)
        g.arg(g.c)
    else: g.arg(g.P); g.arg(g.P); g.arg(g.c)
    if g.kind == "nega" and r.random() < .5 and not o.get("coeff_only"): g.arg(g.E)
    if r.random() < .5: g.arg(f"tensor<{g.N}x{g.c}>")
    if g.kind == "cyc" and r.random() < .5: g.arg("index")
    for _ in range(r.randrange(*steps)): g.pstep()
    if o.get("tensor_io"):
        for t, x in [(t, x) for s in g.scopes for t, xs in s.items() for x in xs if t.startswith("!poly") and x not in ("%q0", "%q1")]:
            c = t.split("coefficientType=")[1].split(", polynomialModulus")[0]; tv = f"tensor<{g.N}x{c}>"; y = g.fresh()
            g.emit(f"{y} = polynomial.to_tensor {x} : {t} -> {tv}"); g.add(tv, y)
        ts = {t for s in g.scopes for t in s if t.startswith("tensor")}
        return g.finish(only=ts, outs=9 if r.random() < .4 else None)
    return g.finish()

def same_forms(after, f, N, before):
    """the pass may ask for a polynomial in evaluation form, or return one: transform at the interface"""
    roots = {}
    def walk(o):
        if o["op"] in ("polynomial.ntt", "polynomial.intt"):
            p = norm.elem(o["t"][0]); e = p["c"]; n = norm.pdeg(p)
            w = o["a"]["root"]; w = w if isinstance(w, list) else [w]
            for q, x in zip([b["q"] for b in e["b"]] if e["k"] == "rns" else [e["q"]], w):
                x = x if o["op"].endswith(".ntt") else pow(x, -1, q)
                if roots.setdefault((q, n), x) != x: raise norm.Unsupported("two roots")
        for g in o["r"]:
            for b in g:
                for x in b["ops"]: walk(x)
    walk(after)
    def root(q, n):
        if (q, n) not in roots: roots[q, n] = next(x for x in range(1, q) if pow(x, n, q) == q - 1)
        return roots[q, n]
    main = next(o for o in before["r"][0][0]["ops"] if o["op"] == "func.func" and o["a"]["sym_name"] == "main")
    t, rt = main["r"][0][0]["t"], main["r"][0][0]["ops"][-1]["it"]
    def conv(a, b):                                         # a: form in the source, b: in the result
        if a["k"] != "poly" or a["form"] == b["form"]: return None
        e, n = a["c"], norm.pdeg(a)
        def op(i, u, to):
            w = [root(q, n) for q in ([x["q"] for x in e["b"]] if e["k"] == "rns" else [e["q"]])]
            if to != "eval": w = [pow(x, -1, q) for x, q in zip(w, [x["q"] for x in e["b"]] if e["k"] == "rns" else [e["q"]])]
            return dict(o="ntt", f="ntt" if to == "eval" else "intt", i=[i], u=[u], n=n, w=w if e["k"] == "rns" else w[0], **N.dd(e))
        return op
    pre = []
    for n, (a, b) in enumerate(zip(t, f["t"])):
        op = conv(a, b)
        if op: pre.append(op(f["args"][n], f["args"][n], b["form"]))
    y = f["ops"].pop(); i = list(y["i"]); post = []
    for n, (a, b) in enumerate(zip(rt, f["rt"])):
        op = conv(a, b)
        if op:
            f["n"] += 1
            post.append(op(i[n], f["n"], a["form"])); i[n] = f["n"]
    f["ops"] = pre + f["ops"] + post + [dict(y, i=i)]

def modular(q, w=None):
    """source integers against residues: both sides are read modulo q at the interface"""
    def wrap(N, f, types, post_only):
        pre = [] if post_only else [dict(o="un", f="trunc", d=100 + q, di=0, sc=shp(t) is None, i=[x], u=[x]) for t, x in zip(types, f["args"]) if norm.elem(t)["k"] in ("int", "mod")]
        y = f["ops"].pop(); i = list(y["i"]); post = []
        for n, t in enumerate(f["rt"]):
            if norm.elem(t)["k"] not in ("int", "mod"): continue
            f["n"] += 1
            post.append(dict(o="un", f="trunc", d=100 + q, di=0, sc=shp(t) is None, i=[i[n]], u=[f["n"]])); i[n] = f["n"]
        f["ops"] = pre + f["ops"] + post + [dict(y, i=i)]
    shp = norm.shape
    def adapt(m, f, N, before): wrap(N, f, f["t"], False)
    adapt.source = lambda m, f, N: wrap(N, f, f["t"], True)
    return adapt

def arith(r, ty="i32", n=None, mem=True):
    """integer programs of additions, subtractions and products, scalar and elementwise"""
    g = gen.Gen(r, ty); n = n or r.choice([2, 3, 4]); T = f"tensor<{n}x{ty}>"
    args = [(f"%a{i}", r.choice([ty, ty, T])) for i in range(r.randrange(1, 4))]
    for x, t in args: g.add(t, x)
    def val(t):
        if g.pick(t) is None or r.random() < .2:
            c = lambda: r.choice([0, 1, -1, 2, 3, -7, 100, -128, 1000, r.randrange(-3000, 3000)])
            v = c() if t == ty else f"dense<{[c() for _ in range(n)]}>" if r.random() < .7 else f"dense<{c()}>"
            return g.add(t, g.const(v, t))
        return g.pick(t)
    idx = lambda: g.const(r.randrange(n), "index")
    def step(d=0):
        k = r.random(); t = r.choice([ty, ty, T])
        if k < .55:
            a, b = val(t), val(t); x = g.fresh(); g.emit(f"{x} = arith.{r.choice(['addi', 'subi', 'muli'])} {a}, {b} : {t}"); g.add(t, x)
        elif k < .65:
            a, i = val(T), idx(); x = g.fresh(); g.emit(f"{x} = tensor.extract {a}[{i}] : {T}"); g.add(ty, x)
        elif k < .75:
            a, b, i = val(ty), val(T), idx(); x = g.fresh(); g.emit(f"{x} = tensor.insert {a} into {b}[{i}] : {T}"); g.add(T, x)
        elif k < .82 and mem:                               # tensor.from_elements of residues folds in MLIR itself
            l = [val(ty) for _ in range(n)]; x = g.fresh(); g.emit(f"{x} = tensor.from_elements {', '.join(l)} : {T}"); g.add(T, x)
        elif k < .9 and d < 1:
            a, x, y, i = val(t), g.fresh(), g.fresh("it"), g.fresh("i")
            g.emit(f"{x} = affine.for {i} = 0 to {r.randrange(1, 4)} iter_args({y} = {a}) -> ({t}) {{"); g.push(); g.add(t, y)
            step(1); g.emit(f"affine.yield {val(t)} : {t}"); g.pop(); g.emit("}"); g.add(t, x)
        elif mem and d < 1:
            m = g.fresh("m"); g.emit(f"{m} = memref.alloc() : memref<{n}x{ty}>")
            for j in range(n): v, c = val(ty), g.const(j, "index"); g.emit(f"memref.store {v}, {m}[{c}] : memref<{n}x{ty}>")
            i, x = idx(), g.fresh(); g.emit(f"{x} = memref.load {m}[{i}] : memref<{n}x{ty}>"); g.add(ty, x)
            if r.random() < .3: g.emit(f"memref.dealloc {m} : memref<{n}x{ty}>")
    for _ in range(r.randrange(1, 7)): step()
    l = [(t, x) for t in (ty, T) for x in g.all(t)]
    o = [r.choice(l[-4:])] + r.sample(l, min(len(l), r.randrange(2)))
    g.emit(f"return {', '.join(x for _, x in o)} : {', '.join(t for t, _ in o)}")
    return f"func.func @main({', '.join(f'{x}: {t}' for x, t in args)}) -> ({', '.join(t for t, _ in o)}) {{\n{g.text()}\n}}\n"

Q17 = "!mod_arith.int<17 : i16>"
P17 = f"!polynomial.polynomial<ring=<coefficientType={Q17}, polynomialModulus=<1 + x**4>>, form=%s>"
R17 = f"#polynomial.primitive_root<value = #mod_arith.value<2 : {Q17}>, degree = 8 : i64>"
def pinned():
    """programs that are compiled wrongly today (known findings)"""
    P, E = P17 % "coeff", P17 % "eval"
    G = f"!polynomial.polynomial<ring=<coefficientType={Q17}, polynomialModulus=<1 + x + x**3>>, form=coeff>"
    yield "poly-zero", "--polynomial-to-mod-arith", f"""func.func @main(%a: {G}, %b: {G}) -> {G} {{
  %z = polynomial.sub %a, %a : {G}
  %r = polynomial.mul %z, %b : {G}
  return %r : {G}
}}
""", {}
    yield "lift-max", "--mod-arith-to-arith", """func.func @main(%a: !mod_arith.int<127 : i8>) -> i8 {
  %r = mod_arith.lift centered %a : !mod_arith.int<127 : i8> -> i8
  return %r : i8
}
""", {}
    yield "ntt-const", "--convert-polynomial-mul-to-ntt --attach-ntt-roots", f"""func.func @main(%a: {P}) -> {P} {{
  %c = polynomial.constant int<1 + 2x**1> : {P}
  %r = polynomial.mul %a, %c : {P}
  return %r : {P}
}}
""", dict(adapt=same_forms)
    yield "intt-fold", "--canonicalize", f"""func.func @main() -> {P} {{
  %c = polynomial.constant int<1 + 2x**1> : {P}
  %e = polynomial.ntt %c {{root = {R17}}} : {P}
  %o = polynomial.add %e, %e : {E}
  %r = polynomial.intt %o {{root = {R17}}} : {E}
  return %r : {P}
}}
""", {}
    yield "intt-cancel", "--canonicalize", f"""func.func @main(%a: {P}) -> {P} {{
  %e = polynomial.ntt %a {{root = {R17}}} : {P}
  %r = polynomial.intt %e {{root = {R17}}} : {E}
  return %r : {P}
}}
""", {}

NZ = {"nzpoly": True}  # the zero polynomial has no leading term
LEVEL = "translation_validation"
def run(c):
    c.build("hopt")
    r = c.rng
    n = 14 * c.scale(1, 10)
    def go(label, pipe, g, k=1.0, inp=5, **kw):
        programs.compare(c, label, pipe, [g(r) for _ in range(max(4, int(n * k)))], r, inp, **kw)
    go("mod-arith-to-arith", "--mod-arith-to-arith", scalar, 4)
    go("canonicalize-mod", "--canonicalize", scalar, 1)
    go("folds", "--canonicalize", folds, 4)
    go("folds-lowered", "--canonicalize --mod-arith-to-arith --canonicalize", folds, 1)
    go("mac", "--mod-arith-to-mac", scalar, 1)
    go("mac-lowered", "--mod-arith-to-mac --mod-arith-to-arith", folds, 1)
    go("barrett", "--mod-arith-to-arith", barrett, 3, 12)
    go("rns", "--mod-arith-to-arith", lambda r: rns(r, const=False), 3)
    go("rns-fold", "--canonicalize", rns, 2)
    go("rns-consts", "--canonicalize", rns_consts, 2)
    go("convert-basis", "--rns-lower-convert-basis", convert, 3, 8)
    go("crt", "--mod-arith-to-arith", crt, 3, 8)
    go("poly", "--polynomial-to-mod-arith", lambda r: poly(r, consts=.15, big=True, lead=True), 5, hooks=NZ)
    # constants fold in every ring, and the folded programs mean what the lowered ones do
    go("poly-fold", "--canonicalize", lambda r: poly(r, consts=.6, big=True, fold=True), 4)
    go("poly-fold-rns", "--canonicalize", lambda r: poly(r, consts=.6, limbs=True, rconst=True, nlimbs=2, fold=True), 2)
    go("poly-fold-lowered", "--canonicalize --polynomial-to-mod-arith", lambda r: poly(r, consts=.4, big=True, fold=True), 2, hooks=NZ)
    go("poly-lowered", "--polynomial-to-mod-arith --mod-arith-to-arith", lambda r: poly(r, consts=.15, nlimbs=0), 3, hooks=NZ)
    go("ntt", "--convert-polynomial-mul-to-ntt --attach-ntt-roots", lambda r: poly(r, kind="nega", coeff_only=True, varonly=True), 3, adapt=same_forms)
    go("ntt-lowered", "--convert-polynomial-mul-to-ntt --attach-ntt-roots --polynomial-to-mod-arith", lambda r: poly(r, kind="nega", coeff_only=True, varonly=True, tensor_io=True), 2)
    for _ in range(c.scale(2, 8)):
        q = r.choice([7, 17, 257, 1009, 7681, 40961, 45007])
        go("arith-to-mod-arith", f"--arith-to-mod-arith=modulus={q}", arith, 1, adapt=modular(q))
        go("arith-to-mod-arith-lowered", f"--arith-to-mod-arith=modulus={min(q, 30011)} --mod-arith-to-arith", lambda r: arith(r, mem=False), .7, adapt=modular(min(q, 30011)))  # residues multiply within the exact domain
    for w in (6, 9, 16):
        go("arith-to-natural-modulus", "--arith-to-mod-arith", lambda r: arith(r, f"i{w}"), .7, adapt=modular(2**(w - 1)))
    for label, pipe, text, kw in pinned():
        programs.compare(c, label, pipe, [text], r, 127 if label == "lift-max" else 6, **kw)

if __name__ == "__main__":
    hv.main("C18", run, level="translation_validation")
