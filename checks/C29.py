"""C29: rewrites of arithmetic, tensors and linear algebra keep results."""
import sys, os, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, programs
from programs import prod
from C26 import fn

def dense(r, sh, fl, splat=None, lo=-3, hi=6):
    f = lambda v: f"{v}.0" if fl else str(v)
    if splat if splat is not None else r.random() < .2: return f(r.randrange(lo, hi))
    it = iter(r.randrange(lo, hi) for _ in range(prod(sh)))
    def nest(s): return f(next(it)) if not s else "[" + ", ".join(nest(s[1:]) for _ in range(s[0])) + "]"
    return nest(sh)

def powers(sh, k=1):
    return f"{2 ** (1 + k % 3)}.0" if not sh else "[" + ", ".join(powers(sh[1:], k + i) for i in range(sh[0])) + "]"

class Base(gen.Gen):
    def setup(self):
        self.fl = self.ity.startswith("f"); self.suf = "f" if self.fl else "i"; self.sig = []; self.C = {}
    def T(self, sh, e=None): return f"tensor<{gen.mshape(sh, e or self.ity)}>" if sh is not None else (e or self.ity)
    def op(self, s): x = self.fresh(); self.emit(f"{x} = {s}"); return x
    def idx(self, k): return self.const(k, "index")
    def arg(self, sh, e=None): x = f"%a{len(self.sig)}"; self.sig.append((x, self.T(sh, e))); return x
    def cst(self, sh, splat=None, lo=-3, hi=6):
        if sh is None: return self.op(f"arith.constant {dense(self.r, [], self.fl, True, lo, hi)} : {self.ity}")
        return self.op(f"arith.constant dense<{dense(self.r, sh, self.fl, splat, lo, hi)}> : {self.T(sh)}")
    def bin(self, a, b, sh, o=None):
        return self.op(f"arith.{o or self.r.choice(['add', 'sub', 'mul'])}{self.suf} {a}, {b} : {self.T(sh)}")
    def reindent(self): return "\n".join(self.out)

class Bal(Base):
    """Sums and products with shared intermediates inside secret.generic."""
    def build(self):
        r = self.r; self.setup(); sh = r.choice([None, None, [4], [2, 2]]); t = self.T(sh)
        ns = r.randrange(1, 4); np = r.randrange(0, 3)
        S = [f"%s{k}" for k in range(ns)]; P = [f"%p{k}" for k in range(np)]
        V = S + P
        pre = []
        for _ in range(r.choice([0, 0, 1, 3])):
            if P: P.append(self.bin(r.choice(P), r.choice(P), sh)); V.append(P[-1])
        pre, self.out = self.out, []
        for _ in range(r.randrange(3, 16)):
            c = r.random()
            if c < .1: V.append(self.cst(sh))
            elif c < .15 and sh is None and not self.fl:
                b = self.op(f"arith.cmpi slt, {r.choice(V[-5:])}, {r.choice(V[-5:])} : {t}"); x = self.fresh()
                self.emit(f"{x} = scf.if {b} -> ({t}) {{")
                y = self.bin(self.bin(r.choice(V), r.choice(V), sh, "add"), r.choice(V), sh, "add"); self.emit(f"scf.yield {y} : {t}"); self.emit("} else {")
                self.emit(f"scf.yield {r.choice(V)} : {t}"); self.emit("}"); V.append(x)
            else: V.append(self.bin(r.choice(V[-4:]) if r.random() < .7 else r.choice(V), r.choice(V[-8:]), sh, r.choice(["add", "add", "mul", "mul", "sub"])))
        outs = [V[-1]] + [r.choice(V[-4:]) for _ in range(r.randrange(2))]
        st = f"!secret.secret<{t}>"
        body = "\n".join("  " + l for l in self.out)
        head = "%o" + (f":{len(outs)}" if len(outs) > 1 else "")
        ro = ", ".join(f"%o#{k}" for k in range(len(outs))) if len(outs) > 1 else "%o"
        so = ", ".join([st] * len(outs))
        return (f"func.func @main({', '.join([f'%q{k}: {st}' for k in range(ns)] + [f'%p{k}: {t}' for k in range(np)])}) -> ({so}) {{\n" + "\n".join(pre) +
                f"\n  {head} = secret.generic({', '.join(f'%q{k}: {st}' for k in range(ns))}) {{\n  ^body({', '.join(f'%s{k}: {t}' for k in range(ns))}):\n{body}\n"
                f"    secret.yield {', '.join(outs)} : {', '.join([t] * len(outs))}\n  }} -> ({so})\n  return {ro} : {so}\n}}")

class Sel(Base):
    def build(self):
        r = self.r; self.setup(); sh = r.choice([None, None, [3], [2, 2]])
        V = [self.arg(sh) for _ in range(3)]; Bs = [self.arg(None, "i1")]; Bt = [self.arg(sh, "i1")] if sh else Bs
        t = self.T(sh); rs = []
        for _ in range(r.randrange(2, 7)):
            c = r.random()
            if c < .3: V.append(self.bin(r.choice(V), r.choice(V), sh))
            elif c < .4 and not self.fl:
                (Bt if sh else Bs).append(self.op(f"arith.cmpi {r.choice(['slt', 'eq', 'uge'])}, {r.choice(V)}, {r.choice(V)} : {t}"))
            elif c < .5: Bs.append(self.op(f"arith.select {r.choice(Bs)}, {r.choice(Bs)}, {r.choice(Bs)} : i1"))
            elif sh and r.random() < .6: V.append(self.op(f"arith.select {r.choice(Bt)}, {r.choice(V)}, {r.choice(V)} : {self.T(sh, 'i1')}, {t}"))
            else: V.append(self.op(f"arith.select {r.choice(Bs)}, {r.choice(V)}, {r.choice(V)} : {t}"))
        return fn(self.sig, self, [(V[-1], t), (Bs[-1], "i1")])

class Tens(Base):
    """Insertions, extractions, reshapes and slices over constants and arguments, with control flow."""
    def build(self, n=12, slices=True, ctrl=True, elementwise=True, dyn=False):
        r = self.r; self.setup()
        shs = [r.choice([[4], [3], [2, 3], [3, 2], [2, 2], [1, 3], [2, 1, 2], [2, 2, 3], [1]]) for _ in range(2)]
        V = [(self.start(sh), sh) for sh in shs]; S = [self.arg(None), self.arg(None)]
        D = [self.arg(None, "index")] if dyn else []
        def pick(sh=None):
            l = [v for v in V if sh is None or v[1] == sh]; return r.choice(l[-5:])
        def ix(sh, allow=True):
            return ", ".join(r.choice(D) if D and allow and d >= 2 and r.random() < .3 else self.idx(r.randrange(d)) for d in sh)
        def step(d):
            c = r.random()
            if c < .14: sh = r.choice(shs); V.append((self.cst(sh), sh))
            elif c < .4:
                v, sh = pick(); V.append((self.op(f"tensor.insert {r.choice(S[-4:])} into {v}[{ix(sh)}] : {self.T(sh)}"), sh))
            elif c < .58: v, sh = pick(); S.append(self.op(f"tensor.extract {v}[{ix(sh)}] : {self.T(sh)}"))
            elif c < .64:
                sh = r.choice(shs); V.append((self.op(f"tensor.from_elements {', '.join(r.choice(S) for _ in range(prod(sh)))} : {self.T(sh)}"), sh))
            elif c < .7: S.append(self.cst(None) if r.random() < .6 else self.bin(r.choice(S), r.choice(S), None))
            elif c < .78 and elementwise: v, sh = pick(); V.append((self.bin(v, pick(sh)[0], sh), sh))
            elif c < .82 and slices: sh = r.choice(shs); V.append((self.op(f"tensor.splat {r.choice(S)} : {self.T(sh)}"), sh))
            elif c < .88 and slices:
                v, sh = pick()
                off = [r.randrange(q) for q in sh]; st = [r.choice([1, 1, 2]) for _ in sh]; siz = [r.randrange(1, (q - o - 1) // s + 2) for q, o, s in zip(sh, off, st)]
                red = [k for k, q in enumerate(siz) if not (q == 1 and r.random() < .5)]
                rs = [siz[k] for k in red]
                f = lambda l: ", ".join(map(str, l))
                V.append((self.op(f"tensor.extract_slice {v}[{f(off)}] [{f(siz)}] [{f(st)}] : {self.T(sh)} to {self.T(rs)}"), rs))
            elif c < .92 and slices:
                l = [v for v in V if len(v[1]) >= 2]
                if l:
                    v, sh = r.choice(l); k = r.randrange(len(sh) - 1); rs = sh[:k] + [sh[k] * sh[k + 1]] + sh[k + 2:]
                    g = [[q] for q in range(k)] + [[k, k + 1]] + [[q] for q in range(k + 2, len(sh))]
                    V.append((self.op(f"tensor.collapse_shape {v} {g} : {self.T(sh)} into {self.T(rs)}"), rs))
            elif ctrl and d:
                v, sh = pick(); t = self.T(sh); nV, nS = len(V), len(S); x = self.fresh()
                if r.random() < .5:
                    lb, ub, stp = self.idx(0), self.idx(r.randrange(0, 4)), self.idx(1); a = self.fresh()
                    self.emit(f"{x} = scf.for %k{x[1:]} = {lb} to {ub} step {stp} iter_args({a} = {v}) -> ({t}) {{")
                    V.append((a, sh))
                    for _ in range(r.randrange(1, 4)): step(d - 1)
                    self.emit(f"scf.yield {pick(sh)[0]} : {t}"); self.emit("}")
                elif not self.fl:
                    b = self.op(f"arith.cmpi slt, {r.choice(S)}, {r.choice(S)} : {self.ity}")
                    self.emit(f"{x} = scf.if {b} -> ({t}) {{")
                    for k in (0, 1):
                        for _ in range(r.randrange(0, 3)): step(d - 1)
                        self.emit(f"scf.yield {pick(sh)[0]} : {t}"); self.emit("} else {" if k == 0 else "}")
                        del V[nV:]; del S[nS:]
                else: return
                del V[nV:]; del S[nS:]
                V.append((x, sh))
        for _ in range(n): step(1)
        return fn(self.sig, self, self.finish(V, S))
    def start(self, sh): return self.arg(sh)
    def finish(self, V, S): return [(v, self.T(s)) for v, s in V[-2:]] + [(S[-1], self.ity)]

class Scal(Tens):
    """The same between scalars, so that the signature stays."""
    def start(self, sh): return self.op(f"tensor.from_elements {', '.join(self.arg(None) for _ in range(prod(sh)))} : {self.T(sh)}")
    def finish(self, V, S):
        res = [(S[-1], self.ity)]
        for v, sh in V[-2:]:
            pts = list(itertools.product(*[range(d) for d in sh]))
            res += [(self.op(f"tensor.extract {v}[{', '.join(self.idx(q) for q in p)}] : {self.T(sh)}"), self.ity) for p in self.r.sample(pts, min(len(pts), 6))]
        return res

class Chain(Base):
    """Constants with chains of insertions, as affine lowering of linalg leaves them."""
    def build(self):
        r = self.r; self.setup(); sh = r.choice([[4], [2, 2], [2, 3], [3]]); t = self.T(sh)
        S = [self.arg(None) for _ in range(3)]
        V = [self.cst(sh)]; pts = list(itertools.product(*[range(d) for d in sh]))
        for _ in range(r.randrange(2, len(pts) + 4)):
            c = r.random()
            if c < .08: S.append(self.op(f"tensor.extract {r.choice(V)}[{', '.join(self.idx(k) for k in r.choice(pts))}] : {t}"))
            elif c < .14: V.append(self.cst(sh))
            elif c < .2: S.append(self.bin(r.choice(S), r.choice(S), None))
            elif c < .26: S.append(self.cst(None))
            else: V.append(self.op(f"tensor.insert {r.choice(S)} into {V[-1] if r.random() < .9 else r.choice(V)}[{', '.join(self.idx(k) for k in r.choice(pts))}] : {t}"))
        return fn(self.sig, self, [(V[-1], t)] + ([(r.choice(V), t)] if r.random() < .3 else []))

class Lin(Base):
    """Linear algebra on tensors, with elementwise work around it."""
    def build(self, only=None, n=None, fuse=False):
        r = self.r; self.setup(); self.V = []; self.fuse = fuse; self.dirty = set(); self.lin = set(); self.nonzero = False
        for k in range(n or r.randrange(1, 4)):
            getattr(self, "k_" + r.choice(only or ["mat", "mat", "fill", "transpose", "broadcast", "map", "generic", "reduce", "generic_red", "conv", "pool", "elem"]))()
        rs = [(v, self.T(s)) for v, s in self.V[-3:]]
        if r.random() < .3 and len(self.V) > 3: q = r.choice(self.V[:-3]); rs.append((q[0], self.T(q[1])))
        return fn(self.sig, self, rs)
    def get(self, sh, p=.5):
        """A tensor of this shape: an existing one, an argument or a constant."""
        r = self.r; l = [v for v, s in self.V if s == sh]
        if l and r.random() < p: return r.choice(l[-3:])
        return self.arg(sh) if r.random() < .6 else self.cst(sh)
    def shape(self, rank=None, unit=.3):
        r = self.r; return [1 if r.random() < unit else r.choice([2, 3]) for _ in range(rank or r.choice([1, 2, 2, 3]))]
    def init(self, sh, zero=.5):
        r = self.r; self.nonzero = False
        if r.random() < zero:
            z = self.op(f"arith.constant {'0.0' if self.fl else '0'} : {self.ity}"); e = self.op(f"tensor.empty() : {self.T(sh)}")
            if r.random() < .3: return self.op(f"arith.constant dense<{'0.0' if self.fl else '0'}> : {self.T(sh)}")
            return self.op(f"linalg.fill ins({z} : {self.ity}) outs({e} : {self.T(sh)}) -> {self.T(sh)}")
        x = self.get(sh); self.nonzero = True; return x
    def empty(self, sh): return self.op(f"tensor.empty() : {self.T(sh)}")
    def put(self, x, sh):
        self.V.append((x, sh))
        if self.nonzero: self.dirty.add(x); self.nonzero = False
        return x
    def linear(self, x, sh): self.lin.add(x); return self.put(x, sh)
    def scaled(self, sh):
        """The other operand of an elementwise operation."""
        r = self.r; c = r.random(); t = self.T(sh)
        if c < .25: return self.cst(sh, splat=True, lo=1)
        if c < .4: return self.op(f"tensor.splat {self.arg(None)} : {t}")
        if c < .75:
            k = r.randrange(len(sh)); a = self.get([sh[k]], .1)
            if len(sh) == 1: return a
            return self.op(f"linalg.broadcast ins({a} : {self.T([sh[k]])}) outs({self.empty(sh)} : {t}) dimensions = {[q for q in range(len(sh)) if q != k]}")
        return self.get(sh)
    def k_elem(self):
        r = self.r
        l = [v for v in self.V if v[1]]
        v, sh = (l[-1] if r.random() < .7 else r.choice(l)) if l else (self.arg([2, 3]), [2, 3])
        o = r.choice(["add", "sub", "mul"] + (["div"] if self.fl else []))
        if self.fuse and v in self.dirty: o = r.choice(["add", "sub"])    # scaling what has an initial value: see KNOWN
        if o == "div":
            w = self.op(f"arith.constant dense<{r.choice(['2.0', '4.0', '1.0', '0.5'])}> : {self.T(sh)}") if r.random() < .7 else self.arg(sh)
        else: w = self.scaled(sh)
        a, b = (v, w) if r.random() < .75 or (o == "div" and v not in self.lin) else (w, v)     # no constant is divided by another but a power of two
        if self.fuse and o in ("mul", "div") and (a in self.dirty or b in self.dirty): o = "add"
        x = self.put(self.bin(a, b, sh, o), sh)
        if o in ("add", "sub") and self.fuse == "all": self.dirty.add(x)
    def k_mat(self):
        r = self.r; m, n, k = [r.choice([1, 2, 3]) if r.random() < .9 else 2 for _ in range(3)]
        kind = r.choice(["matmul", "matvec", "vecmat", "batch_matmul", "dot"])
        ia, ib, io = dict(matmul=([m, k], [k, n], [m, n]), matvec=([m, k], [k], [m]), vecmat=([k], [k, n], [n]), dot=([k], [k], []),
                          batch_matmul=([2 if r.random() < .5 else 1, m, k], None, None))[kind]
        if kind == "batch_matmul": ib, io = [ia[0], k, n], [ia[0], m, n]
        a, b = self.get(ia), self.get(ib)
        if r.random() < .3 and len(ib) == 2 and kind != "matvec":
            q = self.get(ib[::-1]); b = self.op(f"linalg.transpose ins({q} : {self.T(ib[::-1])}) outs({self.empty(ib)} : {self.T(ib)}) permutation = [1, 0]")
        elif r.random() < .4 and kind == "matvec":
            q = self.get(ia[::-1]); a = self.op(f"linalg.transpose ins({q} : {self.T(ia[::-1])}) outs({self.empty(ia)} : {self.T(ia)}) permutation = [1, 0]")
        self.linear(self.op(f"linalg.{kind} ins({a}, {b} : {self.T(ia)}, {self.T(ib)}) outs({self.init(io)} : {self.T(io)}) -> {self.T(io)}"), io)
        for _ in range(r.choice([0, 1, 1, 2])):
            if io: self.k_elem()
    def k_conv(self):
        r = self.r; F, C = r.choice([1, 2]), r.choice([1, 2])
        if r.random() < .5:
            K, s, d = r.choice([1, 2, 3]), r.choice([1, 1, 2]), r.choice([1, 1, 2, 3]); O = r.choice([1, 2, 3]); I = (O - 1) * s + (K - 1) * d + 1
            kind, ia, ib, io = r.choice([("conv_1d_ncw_fcw", [1, C, I], [F, C, K], [1, F, O]), ("conv_1d_nwc_wcf", [1, I, C], [K, C, F], [1, O, F])])
            at = f"{{dilations = dense<{d}> : tensor<1xi64>, strides = dense<{s}> : tensor<1xi64>}}"
        else:
            K, s, d, O = [[r.choice(q) for _ in range(2)] for q in ([1, 2], [1, 1, 2], [1, 1, 2], [1, 2])]; I = [(o - 1) * t + (k - 1) * e + 1 for o, t, k, e in zip(O, s, K, d)]
            kind, ia, ib, io = r.choice([("conv_2d_nchw_fchw", [1, C] + I, [F, C] + K, [1, F] + O), ("conv_2d_nhwc_hwcf", [1] + I + [C], K + [C, F], [1] + O + [F]), ("conv_2d_nhwc_fhwc", [1] + I + [C], [F] + K + [C], [1] + O + [F])])
            at = f"{{dilations = dense<{d}> : tensor<2xi64>, strides = dense<{s}> : tensor<2xi64>}}"
        a = self.get(ia); b = self.cst(ib) if r.random() < .6 else self.get(ib)
        self.linear(self.op(f"linalg.{kind} {at} ins({a}, {b} : {self.T(ia)}, {self.T(ib)}) outs({self.init(io)} : {self.T(io)}) -> {self.T(io)}"), io)
        for _ in range(r.choice([0, 1, 1])): self.k_elem()
    def k_pool(self):
        """Sum pooling, after a convolution or not, with a division after it or not."""
        r = self.r; C = r.choice([1, 2])
        one = r.random() < .3
        nd = 1 if one else 2
        P, s, d, O = [[r.choice(q) for _ in range(nd)] for q in ([1, 2, 2, 3] if one else [1, 2], [1, 1, 2], [1, 1, 1, 2], [1, 2])]
        H = [(o - 1) * t + (k - 1) * e + 1 for o, t, k, e in zip(O, s, P, d)]
        f = lambda l: f"dense<{l}> : tensor<{nd}xi64>" if nd == 2 else f"dense<{l[0]}> : tensor<1xi64>"
        if not one and r.random() < .6:
            K, s2, d2 = [[r.choice(q) for _ in range(2)] for q in ([1, 2], [1, 1, 2], [1, 1, 2])]; I = [(o - 1) * t + (k - 1) * e + 1 for o, t, k, e in zip(H, s2, K, d2)]
            Ci = r.choice([1, 2]); ia, ib, io = [1, Ci] + I, [C, Ci] + K, [1, C] + H
            src = self.op(f"linalg.conv_2d_nchw_fchw {{dilations = {f(d2)}, strides = {f(s2)}}} ins({self.get(ia)}, {self.cst(ib)} : {self.T(ia)}, {self.T(ib)}) outs({self.init(io)} : {self.T(io)}) -> {self.T(io)}")
            if r.random() < .3: self.put(src, io)
        else: src = self.get([1, C] + H)
        si, so = [1, C] + H, [1, C] + O
        avg = self.fl and r.random() < .6
        v = self.op(f"linalg.pooling_{'ncw' if one else 'nchw'}_sum {{dilations = {f(d)}, strides = {f(s)}}} ins({src}, {self.empty(P)} : {self.T(si)}, {self.T(P)}) outs({self.init(so, 1 if avg else .6)} : {self.T(so)}) -> {self.T(so)}")
        if avg:
            if r.random() < .8: w = self.op(f"arith.constant dense<{dense(r, so, True, True, 1, 2) if r.random() < .2 else r.choice(['2.0', '4.0', '8.0'])}> : {self.T(so)}")
            else: w = self.op(f"arith.constant dense<{powers(so)}> : {self.T(so)}")
            if r.random() < .3:                       # the division as a generic, transposing or not
                n = len(so); om = list(range(n)); sr = so
                if r.random() < .4: r.shuffle(om); sr = [so[q] for q in om]
                d = self.op(f"arith.constant {r.choice(['2.0', '4.0'])} : {self.ity}"); x = self.fresh(); a = [self.fresh("i") for _ in range(2)]
                self.emit(f"{x} = linalg.generic {{indexing_maps = [{self.amap(n, [f'd{q}' for q in range(n)])}, {self.amap(n, [f'd{q}' for q in om])}], iterator_types = [{', '.join(['\"parallel\"'] * n)}]}} ins({v} : {self.T(so)}) outs({self.empty(sr)} : {self.T(sr)}) {{")
                self.emit(f"^bb0({', '.join(q + ': ' + self.ity for q in a)}):")
                y = self.op(f"arith.{r.choice(['divf', 'divf', 'mulf'])} {a[0]}, {d} : {self.ity}"); y = y if r.random() < .9 else a[0]
                self.emit(f"linalg.yield {y} : {self.ity}"); self.emit(f"}} -> {self.T(sr)}"); self.put(x, sr)
                return
            o = r.choice(["div", "div", "mul"]); a, b = (v, w) if r.random() < .8 else (w, v)
            if r.random() < .2: self.put(v, so)
            v = self.bin(a, b, so, o)
        self.put(v, so)
    def k_fill(self):
        sh = self.shape(); v = self.cst(None) if self.r.random() < .7 else self.arg(None)
        self.put(self.op(f"linalg.fill ins({v} : {self.ity}) outs({self.empty(sh)} : {self.T(sh)}) -> {self.T(sh)}"), sh)
    def k_transpose(self):
        r = self.r; sh = self.shape(r.choice([2, 3])); p = list(range(len(sh))); r.shuffle(p); so = [sh[q] for q in p]
        self.put(self.op(f"linalg.transpose ins({self.get(sh)} : {self.T(sh)}) outs({self.empty(so)} : {self.T(so)}) permutation = {p}"), so)
    def k_broadcast(self):
        r = self.r; so = self.shape(r.choice([2, 3])); k = sorted(r.sample(range(len(so)), r.randrange(1, len(so)))); sh = [so[q] for q in range(len(so)) if q not in k]
        x = self.put(self.op(f"linalg.broadcast ins({self.get(sh)} : {self.T(sh)}) outs({self.empty(so)} : {self.T(so)}) dimensions = {k}"), so)
        if r.random() < .5:
            off = [r.randrange(q) for q in so]; st = [r.choice([1, 1, 2]) for _ in so]; siz = [r.randrange(1, (q - o - 1) // s + 2) for q, o, s in zip(so, off, st)]
            red = [siz[j] for j in range(len(so)) if not (siz[j] == 1 and r.random() < .4)]
            f = lambda l: ", ".join(map(str, l))
            self.put(self.op(f"tensor.extract_slice {x}[{f(off)}] [{f(siz)}] [{f(st)}] : {self.T(so)} to {self.T(red)}"), red)
    def body(self, args, depth=None, index=0, outer=()):
        """Scalar computation of a region; returns the value."""
        r = self.r; L = list(args)
        for _ in range(depth or r.randrange(1, 4)):
            c = r.random()
            if c < .12: L.append(self.op(f"arith.constant {dense(r, [], self.fl, True)} : {self.ity}"))
            elif c < .2 and outer: L.append(self.bin(r.choice(L), r.choice(outer), None))
            elif c < .27 and not self.fl: b = self.op(f"arith.cmpi {r.choice(['slt', 'ugt', 'eq'])}, {r.choice(L)}, {r.choice(L)} : {self.ity}"); L.append(self.op(f"arith.select {b}, {r.choice(L)}, {r.choice(L)} : {self.ity}"))
            elif c < .33 and index and not self.fl: q = self.op(f"linalg.index {r.randrange(index)} : index"); L.append(self.op(f"arith.index_cast {q} : index to {self.ity}"))
            else: L.append(self.bin(r.choice(L[-4:]), r.choice(L[-4:]), None))
        return L[-1] if r.random() < .9 else r.choice(L)
    def k_map(self):
        r = self.r; sh = self.shape(); k = r.choice([1, 2, 2]); ins = [self.get(sh) for _ in range(k)]; t = self.T(sh)
        out = self.arg(None) if r.random() < .3 else None
        x = self.fresh(); a = [self.fresh("i") for _ in range(k)]
        dst = self.empty(sh) if r.random() < .8 else self.get(sh)
        self.emit(f"{x} = linalg.map ins({', '.join(ins)} : {', '.join([t] * k)}) outs({dst} : {t}) ({', '.join(q + ': ' + self.ity for q in a)}) {{")
        y = self.body(a, depth=r.choice([1, 1, 1, 2]), outer=[out] if out else ())
        self.emit(f"linalg.yield {y} : {self.ity}"); self.emit("}"); self.put(x, sh)
    def amap(self, n, res): return f"affine_map<({', '.join(f'd{k}' for k in range(n))}) -> ({', '.join(res)})>"
    def k_generic(self):
        r = self.r; n = r.choice([1, 2, 2, 3]); dom = self.shape(n); so = dom; k = r.choice([1, 2, 2, 3])
        maps, ins, shs = [], [], []
        for _ in range(k):
            c = r.random(); dims = list(range(n))
            if c < .25 and n > 1: dims = r.sample(dims, r.randrange(1, n)); dims = dims if r.random() < .3 else sorted(dims)
            elif c < .32: r.shuffle(dims)
            elif c < .36: dims = []
            res = [f"d{q}" for q in dims]; sh = [dom[q] for q in dims]
            if r.random() < .15: q = r.randrange(len(sh) + 1); res.insert(q, "0"); sh.insert(q, 1)
            maps.append(self.amap(n, res)); ins.append(self.get(sh)); shs.append(sh)
        used = r.random() < .2
        om = list(range(n))
        # (MLIR's own projected-permutation pattern never converges on a permuted result of several inputs)
        if r.random() < .1 and (k == 1 or self.fuse != "init"): r.shuffle(om)
        so = [dom[q] for q in om]
        init = self.empty(so) if not used else self.init(so)
        outer = [self.arg(None) if r.random() < .5 else self.cst(None)] if r.random() < .4 else []
        maps.append(self.amap(n, [f"d{q}" for q in om])); x = self.fresh(); a = [self.fresh("i") for _ in range(k + 1)]
        self.emit(f"{x} = linalg.generic {{indexing_maps = [{', '.join(maps)}], iterator_types = [{', '.join(['\"parallel\"'] * n)}]}} ins({', '.join(ins)} : {', '.join(map(self.T, shs))}) outs({init} : {self.T(so)}) {{")
        self.emit(f"^bb0({', '.join(q + ': ' + self.ity for q in a)}):")
        y = self.body(a if used else a[:-1], index=n if r.random() < .15 else 0, outer=outer)
        if r.random() < .05 and outer: y = outer[0]
        self.emit(f"linalg.yield {y} : {self.ity}"); self.emit(f"}} -> {self.T(so)}"); self.put(x, so)
    def k_reduce(self):
        r = self.r; sh = self.shape(r.choice([1, 2, 3])); dims = sorted(r.sample(range(len(sh)), r.randrange(1, len(sh) + 1))); so = [q for k, q in enumerate(sh) if k not in dims]
        o = r.choice(["add", "add", "mul"]); x = self.fresh(); t = self.T(so)
        a, i = self.get(sh), self.init(so)
        p, q = self.fresh("i"), self.fresh("i")
        self.emit(f"{x} = linalg.reduce ins({a} : {self.T(sh)}) outs({i} : {t}) dimensions = {dims} ({p}: {self.ity}, {q}: {self.ity}) {{")
        y = self.bin(p, q, None, o) if r.random() < .7 else self.bin(q, p, None, r.choice([o, "sub"]))
        self.emit(f"linalg.yield {y} : {self.ity}"); self.emit("}"); self.put(x, so)
        if so and r.random() < .6: self.k_elem()
    def k_generic_red(self):
        r = self.r; n = r.choice([1, 2, 2, 3, 4]); dom = self.shape(n, .15) if n < 4 else [2, 1, 2, 3]; red = sorted(r.sample(range(n), r.randrange(1, n + 1)))
        if r.random() < .2: dom = [2] * n
        if r.random() < .15: n, dom, red = 4, [r.choice([1, 2]), 2, 2, 2], [0, 1]
        par = [q for q in range(n) if q not in red]
        if r.random() < .35: r.shuffle(par)
        so = [dom[q] for q in par]; k = 1 if r.random() < .75 else 2
        maps, ins, shs = [], [], []
        for _ in range(k):
            dims = list(range(n))
            if r.random() < .15: r.shuffle(dims)
            maps.append(self.amap(n, [f"d{q}" for q in dims])); sh = [dom[q] for q in dims]; ins.append(self.get(sh)); shs.append(sh)
        maps.append(self.amap(n, [f"d{q}" for q in par])); i = self.init(so)
        outer = [self.arg(None)] if r.random() < .2 else []
        x = self.fresh(); a = [self.fresh("i") for _ in range(k + 1)]
        self.emit(f"{x} = linalg.generic {{indexing_maps = [{', '.join(maps)}], iterator_types = [{', '.join('\"reduction\"' if q in red else '\"parallel\"' for q in range(n))}]}} ins({', '.join(ins)} : {', '.join(map(self.T, shs))}) outs({i} : {self.T(so)}) {{")
        self.emit(f"^bb0({', '.join(q + ': ' + self.ity for q in a)}):")
        v = a[0] if r.random() < .5 else self.body(a[:-1] if r.random() < .8 else a, index=n if r.random() < .2 else 0, outer=outer)
        y = self.bin(v, a[-1], None, r.choice(["add", "add", "mul"])) if r.random() < .6 else self.bin(a[-1], v, None, r.choice(["add", "sub"]))
        self.emit(f"linalg.yield {y} : {self.ity}"); self.emit(f"}} -> {self.T(so)}"); self.put(x, so)
        if so and r.random() < .5: self.k_elem()

KNOWN = [     # scaling that ignores the initial value of the operation it is folded into, which lit tests of the repository expect
    ("linalg-fuse-linear-ops", "--linalg-fuse-linear-ops", """func.func @main(%arg0: tensor<2x3xf32>, %arg1: tensor<3x4xf32>, %arg2: tensor<2x4xf32>, %arg3: tensor<4xf32>) -> tensor<2x4xf32> {
  %0 = linalg.matmul ins(%arg0, %arg1 : tensor<2x3xf32>, tensor<3x4xf32>) outs(%arg2 : tensor<2x4xf32>) -> tensor<2x4xf32>
  %1 = tensor.empty() : tensor<2x4xf32>
  %b = linalg.broadcast ins(%arg3 : tensor<4xf32>) outs(%1 : tensor<2x4xf32>) dimensions = [0]
  %2 = arith.mulf %0, %b : tensor<2x4xf32>
  return %2 : tensor<2x4xf32>
}"""),
    ("linalg-canonicalizations", "--linalg-canonicalizations", """func.func @main(%arg0: tensor<1x1x2x2xf32>) -> tensor<1x1x1x1xf32> {
  %i = arith.constant dense<2.0> : tensor<1x1x1x1xf32>
  %f = tensor.empty() : tensor<2x2xf32>
  %d = arith.constant dense<4.0> : tensor<1x1x1x1xf32>
  %0 = linalg.pooling_nchw_sum {dilations = dense<1> : vector<2xi64>, strides = dense<2> : vector<2xi64>} ins(%arg0, %f : tensor<1x1x2x2xf32>, tensor<2x2xf32>) outs(%i : tensor<1x1x1x1xf32>) -> tensor<1x1x1x1xf32>
  %1 = arith.divf %0, %d : tensor<1x1x1x1xf32>
  return %1 : tensor<1x1x1x1xf32>
}"""),
]

def run(c):
    r = c.rng
    n = c.scale(110, 700)
    ity = lambda: r.choice(["i8", "i16", "i8", "f32"])
    G = lambda cls, m=n, e=None, **k: [cls(r, e or ity()).build(**k) for _ in range(m)]
    jobs = [
        ("operation-balancer", "--operation-balancer", G(Bal)),
        ("select-rewrite", "--select-rewrite", G(Sel)),
        ("fold-constant-tensors", "--fold-constant-tensors", G(Tens, n // 2, dyn=True) + G(Chain)),
        ("convert-tensor-to-scalars", "--convert-tensor-to-scalars=max-size=16", G(Scal, slices=False, elementwise=False)),
        ("elementwise-to-affine", "--convert-elementwise-to-affine", G(Tens, n // 2) + G(Sel, n // 3)),
        ("apply-folders", "--apply-folders", G(Tens, n // 2, dyn=True)),
        ("linalg-canonicalizations", "--linalg-canonicalizations", G(Lin, fuse="init") + G(Lin, e="f32", only=["conv", "pool", "mat", "broadcast"], fuse="init")),
        ("linalg-fuse-linear-ops", "--linalg-fuse-linear-ops", G(Lin, 2 * n, e="f32", only=["mat", "mat", "mat", "conv", "reduce", "generic_red", "generic"], fuse="all")),
        ("drop-unit-dims", "--drop-unit-dims", G(Lin)),
        ("reduction-canonicalizations", "--reduction-canonicalizations", G(Lin, only=["generic_red", "generic_red", "generic", "reduce"])),
        ("tensor-linalg-to-affine-loops", "--tensor-linalg-to-affine-loops", G(Lin)),
    ]
    for label, pipe, mods in jobs:
        programs.compare(c, label, pipe, mods, r, ninputs=c.scale(4, 8))
    for label, pipe, text in KNOWN: programs.compare(c, label, pipe, [text], r, ninputs=4)
