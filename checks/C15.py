"""C15: moving computations in and out of secret regions changes nothing."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, programs
LEVEL = "translation_validation"
N = 4
I, T, X, M = "i8", f"tensor<{N}xi8>", "index", f"memref<{N}xi8>"
sec = lambda t: f"!secret.secret<{t}>"
ARG = {"i8": "i8", "t": T, "x": X, "m": M}

class Sec(gen.Gen):
    """values by type; a secret one has type !secret.secret<...>"""
    def const_(self, t):
        r = self.r; x = self.fresh("c")
        v = {I: r.choice([0, 1, -1, 2, 3, -7, 100]), X: r.randrange(N), T: f"dense<{[r.randrange(-9, 10) for _ in range(N)]}>"}[t]
        self.emit(f"{x} = arith.constant {v} : {t}"); return self.add(t, x)
    def get(self, t, fresh=.12):
        v = self.pick(t)
        return self.const_(t) if v is None or self.r.random() < fresh else v
    def op(self, d=0, mem=True, loops=True):
        """one operation on plaintext types"""
        r = self.r; k = r.random(); x = self.fresh()
        if k < .36:
            t = r.choice([I, I, T]); self.emit(f"{x} = arith.{r.choice(['addi', 'subi', 'muli', 'xori', 'maxsi'])} {self.get(t)}, {self.get(t)} : {t}"); self.add(t, x)
        elif k < .46: a, i = self.get(T), self.get(X); self.emit(f"{x} = tensor.extract {a}[{i}] : {T}"); self.add(I, x)
        elif k < .56: v, a, i = self.get(I), self.get(T, .3), self.get(X); self.emit(f"{x} = tensor.insert {v} into {a}[{i}] : {T}"); self.add(T, x)
        elif k < .6: l = [self.get(I) for _ in range(N)]; self.emit(f"{x} = tensor.from_elements {', '.join(l)} : {T}"); self.add(T, x)
        elif k < .64:
            a, b, c, e = self.get(I), self.get(I), self.fresh("b"), self.get(I); f = self.get(I)
            self.emit(f"{c} = arith.cmpi {r.choice(['slt', 'eq', 'uge'])}, {a}, {b} : i8"); self.emit(f"{x} = arith.select {c}, {e}, {f} : i8"); self.add(I, x)
        elif k < .74 and d < 2 and loops: self.loop(d, mem)
        elif k < .8 and d < 2 and loops: self.branch(d, mem)
        elif k < .84 and mem and loops:
            self.emit(f"{x} = memref.alloc() : {M}")
            v, i = self.get(I), self.fresh("i"); self.emit(f"affine.for {i} = 0 to {N} {{\n{'  ' * self.ind}  affine.store {v}, {x}[{i}] : {M}\n{'  ' * self.ind}}}"); self.add(M, x)
        elif k < .92 and mem and self.all(M): self.store()
        elif mem and self.all(M): m = self.pick(M); e = self.access(); self.emit(f"{x} = {e[0]}.load {m}[{e[1]}] : {M}"); self.add(I, x)
        else: self.emit(f"{x} = arith.addi {self.get(I)}, {self.get(I)} : i8"); self.add(I, x)
    def access(self):
        """an index in range, for an affine or a memref operation"""
        r = self.r; ivs = [x for x, lo, hi in self.ivs]
        iv = r.choice(self.ivs) if self.ivs and r.random() < .7 else None
        if iv and iv[0] not in self.all("iv"): iv = None
        if iv is None:
            if r.random() < .4: return "affine", str(r.randrange(N))
            return "memref", self.get(X)
        x, lo, hi = iv
        if r.random() < .5:
            d = r.randrange(-lo, N - hi + 1); e = f"{x} + {d}" if d > 0 else f"{x} - {-d}" if d else x
            if r.random() < .3: e = f"{N - 1} - {x}" if hi <= N else e
            return "affine", e
        return "memref", x
    def store(self):
        m, v, e = self.pick(M), self.get(I), self.access()
        self.emit(f"{e[0]}.store {v}, {m}[{e[1]}] : {M}")
    def loop(self, d, mem):
        r = self.r; i = self.fresh("i"); x = self.fresh(); a = self.fresh("a"); t = r.choice([I, I, T])
        lo = r.choice([0, 0, 1]); hi = r.choice([1, 2, N, N]); hi = max(hi, lo)
        it = r.random() < .7 or not (mem and self.all(M)); init = self.get(t)
        ivs = self.ivs; self.ivs = ivs + [(i, lo, hi)] if hi > lo else ivs
        aff = r.random() < .7
        if not aff:
            c = [self.fresh("c") for _ in range(3)]
            for y, v in zip(c, (lo, hi, 1)): self.emit(f"{y} = arith.constant {v} : index")
        h = f"affine.for {i} = {lo} to {hi}" if aff else f"scf.for {i} = {c[0]} to {c[1]} step {c[2]}"
        self.emit((f"{x} = " if it else "") + h + (f" iter_args({a} = {init}) -> ({t})" if it else "") + " {")
        self.push(); self.add(X, i)
        if aff: self.add("iv", i)
        if it: self.add(t, a)
        for _ in range(r.randrange(1, 4)): self.op(d + 1, mem)
        if not it: self.store()
        if it: self.emit(f"{'affine' if aff else 'scf'}.yield {self.get(t)} : {t}")
        self.pop(); self.emit("}"); self.ivs = ivs
        if it: self.add(t, x)
    def branch(self, d, mem):
        r = self.r; c, x, t = self.fresh("b"), self.fresh(), r.choice([I, I, T])
        self.emit(f"{c} = arith.cmpi {r.choice(['slt', 'sge', 'ne'])}, {self.get(I)}, {self.get(I)} : i8")
        self.emit(f"{x} = scf.if {c} -> ({t}) {{")
        for part in (0, 1):
            self.push()
            for _ in range(r.randrange(0, 3)): self.op(d + 1, mem)
            self.emit(f"scf.yield {self.get(t)} : {t}"); self.pop(); self.emit("} else {" if part == 0 else "}")
        self.add(t, x)
    # ---- regions
    def generic(self, d=0):
        r = self.r
        secs = [t for t in (I, T, M) if self.all(sec(t))]
        ins = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            if r.random() < .78 and secs: t = sec(r.choice(secs))
            else: t = r.choice([I, T, X])
            v = self.pick(t)
            if v: ins.append((v, t))
        outer = self.scopes; args = [self.fresh("z") for _ in ins]
        res_i = len(self.out); self.emit("")
        if args: self.emit("^body(" + ", ".join(f"{a}: {t[len(sec('')) - 1:-1] if t.startswith('!secret') else t}" for a, (_, t) in zip(args, ins)) + "):")
        # inside, plain values of the scope may be used directly; secret ones may not
        self.scopes = [{k: v for k, v in s.items() if not k.startswith("!")} for s in outer] if r.random() < .7 or not args else [dict(iv=self.all("iv"))]
        self.scopes = [dict((k, list(v)) for k, v in s.items()) for s in self.scopes]
        self.push()
        mine = set()
        for a, (_, t) in zip(args, ins): self.add(t[len(sec('')) - 1:-1] if t.startswith("!secret") else t, a)
        for _ in range(r.choice([1, 1, 2, 3, 4, 5])): self.op(self.o.get("d", 0), self.o.get("mem", True), self.o.get("loops", True))
        inner = self.scopes[-1]; l = [(t, x) for t in (I, T, M) for x in inner.get(t, [])]
        out = [r.choice(l[-5:]) for _ in range(r.choice([1, 1, 1, 2, 3]))] if l else []
        if r.random() < .8:
            out = list(dict.fromkeys(out))
        if not out: out = [(I, self.const_(I))]
        if self.o.get("memout") is False: out = [y for y in out if y[0] != M] or [(I, self.const_(I))]
        self.emit(f"secret.yield {', '.join(x for _, x in out)} : {', '.join(t for t, _ in out)}")
        self.scopes = outer; self.ind -= 1
        res = [self.fresh("g") for _ in out]
        n = "  " * self.ind
        inp = f"({', '.join(f'{v}: {t}' for v, t in ins)})" if ins else "()"
        self.out[res_i] = f"{n}{', '.join(res)} = secret.generic{inp} {{"
        self.emit(f"}} -> ({', '.join(sec(t) for t, _ in out)})")
        for x, (t, _) in zip(res, out): self.add(sec(t), x)
    def top(self, d=0):
        r = self.r; k = r.random(); x = self.fresh()
        if k < .6: self.generic(d)
        elif k < .75: self.op(2, False, False)
        elif k < .82: t = r.choice([I, T]); self.emit(f"{x} = secret.conceal {self.get(t)} : {t} -> {sec(t)}"); self.add(sec(t), x)
        elif k < .92 and d < 1 and self.o.get("top", True):
            t = r.choice([I, T]); init = self.pick(sec(t)); i, a = self.fresh("i"), self.fresh("a"); hi = r.choice([1, 2, N])
            if not init: return
            ivs = self.ivs; self.ivs = ivs + [(i, 0, hi)]
            self.emit(f"{x} = affine.for {i} = 0 to {hi} iter_args({a} = {init}) -> ({sec(t)}) {{"); self.push(); self.add(X, i); self.add("iv", i); self.add(sec(t), a)
            for _ in range(r.randrange(1, 3)): self.top(d + 1)
            self.emit(f"affine.yield {self.pick(sec(t))} : {sec(t)}"); self.pop(); self.emit("}"); self.ivs = ivs; self.add(sec(t), x)
        else: self.generic(d)

# makes sure that the memref dialect is loaded
LOADED = "func.func private @ld(%m: memref<1xi8>) -> i8 {\n  %c = arith.constant 0 : index\n  %x = memref.load %m[%c] : memref<1xi8>\n  return %x : i8\n}\n"

def regions(r, n=(1, 5), **o):
    """a function over secret values, made of secret regions"""
    g = Sec(r, "i8"); g.o = o; g.ivs = []
    args = [(f"%s{i}", sec(t)) for i, t in enumerate(r.sample([I, I, T, T], r.randrange(1, 4)))] + [(f"%p{i}", t) for i, t in enumerate(r.sample([I, T, X], r.randrange(0, 3)))]
    if o.get("mem", True) and r.random() < .25: args.append(("%sm", sec(M)))
    for x, t in args: g.add(t, x)
    for _ in range(r.randrange(*n)): g.top()
    l = [(t, x) for t in (sec(I), sec(T)) for x in g.all(t) if x[1] not in "s"] or [(t, x) for x, t in args if t in (sec(I), sec(T))]
    if not l: return regions(r, n, **o)
    out = r.sample(l, min(len(l), r.choice([1, 2, 3, 6])))
    g.emit(f"return {', '.join(x for _, x in out)} : {', '.join(t for t, _ in out)}")
    return f"func.func @main({', '.join(f'{x}: {t}' for x, t in args)}) -> ({', '.join(t for t, _ in out)}) {{\n{g.text()}\n}}\n" + LOADED

def plain(r, n=(1, 8), calls=True, **o):
    """an ordinary function with secret arguments"""
    g = Sec(r, "i8"); g.o = o; g.ivs = []; fs = ""
    args = [(f"%s{i}", t, r.random() < .7) for i, t in enumerate(r.sample([I, I, T, T, X], r.randrange(1, 4)))]
    if not any(s for _, _, s in args): args[0] = args[0][:2] + (True,)
    for x, t, _ in args: g.add(t, x)
    if calls and r.random() < .4:
        h = Sec(r, "i8"); h.o = o; h.ivs = []; ha = [(f"%h{i}", t, r.random() < .6) for i, t in enumerate(r.sample([I, I, T], r.randrange(1, 3)))]
        for x, t, _ in ha: h.add(t, x)
        for _ in range(r.randrange(1, 4)): h.op(1, o.get("mem", True), o.get("loops", True))
        ht = [r.choice([I, I, T]) for _ in range(r.choice([1, 1, 2]))]; hv_ = [h.get(t) for t in ht]
        h.emit(f"return {', '.join(hv_)} : {', '.join(ht)}")
        fs = f"func.func private @helper({', '.join(f'{x}: {t}' + (' {secret.secret}' if s else '') for x, t, s in ha)}) -> ({', '.join(ht)}) {{\n{h.text()}\n}}\n"
    for _ in range(r.randrange(*n)):
        g.op(0, o.get("mem", True), o.get("loops", True))
        if fs and r.random() < .4:
            xs = [g.fresh() for _ in ht]; vs = [g.get(t) for _, t, _ in ha]
            g.emit(f"{', '.join(xs)} = func.call @helper({', '.join(vs)}) : ({', '.join(t for _, t, _ in ha)}) -> ({', '.join(ht)})")
            for x, t in zip(xs, ht): g.add(t, x)
    l = [(t, x) for t in (I, T) for x in g.all(t)]
    out = [r.choice(l[-6:]) for _ in range(r.choice([1, 2, 3]))]
    g.emit(f"return {', '.join(x for _, x in out)} : {', '.join(t for t, _ in out)}")
    return fs + f"func.func @main({', '.join(f'{x}: {t}' + (' {secret.secret}' if s else '') for x, t, s in args)}) -> ({', '.join(t for t, _ in out)}) {{\n{g.text()}\n}}\n"

def looped(r, kind=None):
    """one secret region around one loop carrying secret values"""
    g = Sec(r, "i8"); g.o = dict(mem=False); g.ivs = []
    args = [(f"%s{i}", t) for i, t in enumerate(r.sample([I, I, T, T], r.randrange(1, 4)))]
    zs = [(f"%z{i}", t) for i, (_, t) in enumerate(args)]
    for _ in range(r.randrange(0, 3)): g.op(2, False, False)          # plain values of the enclosing function
    carried = [r.choice(zs) for _ in range(r.choice([1, 1, 2]))]
    g.ind += 1; outer = g.scopes; g.scopes = [dict((k, list(v)) for k, v in s.items()) for s in outer]
    g.push(); head = len(g.out)
    for z, t in zs: g.add(t, z)
    i, xs, As = "%it", [f"%l{k}" for k in range(len(carried))], [f"%it{k}" for k in range(len(carried))]
    aff = r.random() < .6; lo, hi = r.choice([(0, N), (0, N), (1, N), (0, 1), (0, 0)])
    pre = []
    if not aff: pre = [f"  %lb = arith.constant {lo} : index", f"  %ub = arith.constant {hi} : index", "  %st = arith.constant 1 : index"]
    g.emit(f"{', '.join(xs)} = " + (f"affine.for {i} = {lo} to {hi}" if aff else f"scf.for {i} = %lb to %ub step %st") +
           f" iter_args({', '.join(f'{a} = {z}' for a, (z, _) in zip(As, carried))}) -> ({', '.join(t for _, t in carried)}) {{")
    g.push(); g.add(X, i)
    for a, (_, t) in zip(As, carried): g.add(t, a)
    for _ in range(r.randrange(1, 5)): g.op(2, False, False)
    ys = []
    for a, (_, t) in zip(As, carried):
        y = g.fresh(); g.emit(f"{y} = arith.{r.choice(['addi', 'muli', 'xori', 'subi'])} {a}, {g.get(t)} : {t}"); ys.append(y)
    if r.random() < .3 and len(ys) == 2 and carried[0][1] == carried[1][1]: ys.reverse()
    g.emit(f"{'affine' if aff else 'scf'}.yield {', '.join(ys)} : {', '.join(t for _, t in carried)}"); g.pop(); g.emit("}")
    for (_, t), x in zip(carried, xs): g.add(t, x)
    for _ in range(r.choice([0, 0, 1, 2])): g.op(2, False, False)
    l = [(x, t) for x, (_, t) in zip(xs, carried)] + [r.choice([(x, t) for t in (I, T) for x in g.scopes[-1].get(t, [])] + zs)]
    out = r.sample(l, r.randrange(1, len(l) + 1))
    g.emit(f"secret.yield {', '.join(x for x, _ in out)} : {', '.join(t for _, t in out)}")
    g.scopes = outer; g.ind -= 1
    hd = [f"  {', '.join(f'%g{k}' for k in range(len(out)))} = secret.generic({', '.join(f'{x}: {sec(t)}' for x, t in args)}) {{", f"  ^body({', '.join(f'{z}: {t}' for z, t in zs)}):"]
    g.out[head:head] = hd
    g.emit(f"}} -> ({', '.join(sec(t) for _, t in out)})")
    g.emit(f"return {', '.join(f'%g{k}' for k in range(len(out)))} : {', '.join(sec(t) for _, t in out)}")
    return f"func.func @main({', '.join(f'{x}: {sec(t)}' for x, t in args)}) -> ({', '.join(sec(t) for _, t in out)}) {{\n" + "\n".join(pre) + "\n" + g.text() + "\n}\n"

def index_gen(rng, t, k):
    return rng.randrange(N) if t["k"] == "index" or (t["k"] == "secret" and t["e"]["k"] == "index") else None

# programs on which the implementation is known to fail (known-findings.txt)
KNOWN = [("distribute", "--wrap-generic --canonicalize --secret-distribute-generic --canonicalize", x) for x in ("""func.func @main(%s0: tensor<4xi8> {secret.secret}) -> (tensor<4xi8>) {
  %c5 = arith.constant 100 : i8
  %v3 = affine.for %i2 = 0 to 1 iter_args(%a4 = %c5) -> (i8) {
    %v6 = tensor.extract %s0[%i2] : tensor<4xi8>
    affine.yield %v6 : i8
  }
  %v7 = memref.alloc() : memref<4xi8>
  affine.for %i8 = 0 to 4 {
    affine.store %v3, %v7[%i8] : memref<4xi8>
  }
  %c11 = arith.constant 2 : index
  %v10 = memref.load %v7[%c11] : memref<4xi8>
  return %s0 : tensor<4xi8>
}
""", """func.func @main(%s0: tensor<4xi8>, %s1: i8 {secret.secret}, %s2: index {secret.secret}) -> (i8, tensor<4xi8>, i8) {
  %c2 = arith.constant dense<[3, -3, -9, -5]> : tensor<4xi8>
  %v1 = tensor.extract %c2[%s2] : tensor<4xi8>
  %v5 = affine.for %i4 = 0 to 4 iter_args(%a6 = %v1) -> (i8) {
    %v7 = arith.addi %v1, %s1 : i8
    affine.yield %v7 : i8
  }
  return %v5, %s0, %v5 : i8, tensor<4xi8>, i8
}
""")]

def run(c):
    c.build("hopt")
    r = c.rng
    n = 60 * c.scale(1, 10)
    def go(label, pipe, g, k=1.0, inp=4, **kw):
        programs.compare(c, label, pipe, [g(r) for _ in range(max(4, int(n * k)))], r, inp, gen=index_gen, **kw)
    for label, pipe, text in KNOWN: programs.compare(c, label + "-pinned", pipe, [text], r, 2, gen=index_gen)
    go("canonicalize", "--canonicalize", regions, 3)
    go("capture", "--secret-capture-generic-ambient-scope", regions, 3)
    go("merge", "--secret-merge-adjacent-generics", regions, 3)
    go("absorb-constants", "--secret-generic-absorb-constants", regions, 3)
    go("absorb-dealloc", "--secret-generic-absorb-dealloc", regions, 1)
    flat = lambda r: regions(r, loops=False)
    go("distribute", "--secret-distribute-generic", flat, 3)
    go("distribute-loops", "--secret-distribute-generic=distribute-through=affine.for,scf.for", looped, 2)
    go("distribute-all", "--secret-distribute-generic", looped, 2)
    go("distribute-branches", "--secret-distribute-generic=distribute-through=scf.if,arith.addi", regions, 2)
    go("extract-body", "--secret-capture-generic-ambient-scope --secret-extract-generic-body", regions, 2)
    go("forget", "--secret-forget-secrets", lambda r: regions(r, top=False), 2)
    go("merge-distribute", "--secret-merge-adjacent-generics --canonicalize --secret-distribute-generic --canonicalize", flat, 2)
    go("wrap", "--wrap-generic", plain, 2)
    go("secretize", "--secretize --wrap-generic --canonicalize", lambda r: plain(r, calls=False), 2)
    go("wrap-forget", "--wrap-generic --canonicalize --secret-forget-secrets", plain, 2)
    go("wrap-distribute", "--wrap-generic --canonicalize --secret-distribute-generic --canonicalize", lambda r: plain(r, calls=False, loops=False), 2)

if __name__ == "__main__":
    hv.main("C15", run, LEVEL)
