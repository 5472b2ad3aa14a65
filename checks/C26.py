"""C26: rotation rewriting and vectorization keep results."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, programs

class Rot(gen.Gen):
    """Straight-line tensor programs: rotations by constants, elementwise arithmetic, constants, extractions."""
    def build(self, n=10, shape=None, dyn=False, extract=True, raw=False):
        r = self.r
        self.sh = shape or r.choice([[4], [8], [8], [6], [5], [2, 4], [3, 3]])
        self.fl = self.ity.startswith("f")
        t = self.t = f"tensor<{gen.mshape(self.sh, self.ity)}>"
        sig = [(f"%t{k}", t) for k in range(3)] + ([("%s0", "index")] if dyn else [])
        self.T = ["%t0", "%t1", "%t2"]
        self.S = []
        m = self.sh[-1]
        suf = "f" if self.fl else "i"
        for _ in range(n):
            c = r.random()
            pick = lambda: r.choice(self.T[-5:]) if r.random() < .7 else r.choice(self.T)
            x = self.fresh()
            if c < .45:
                ty = r.choice(["index", "index", "i32", "i64"])
                if dyn and r.random() < .5: k, ty = "%s0", "index"
                else: k = self.const(r.choice([0, 1, 2, m - 1, m, r.randrange(m), r.randrange(-2 * m, 3 * m), r.randrange(m)]), ty)
                self.emit(f"{x} = tensor_ext.rotate {pick()}, {k} : {t}, {ty}")
            elif c < .9:
                self.emit(f"{x} = arith.{r.choice(['add', 'sub', 'mul'])}{suf} {pick()}, {pick()} : {t}")
            elif c < .97:
                import itertools
                sz = programs.prod(self.sh)
                vs = [r.randrange(0, 9) for _ in range(sz)] if r.random() < .7 else [r.randrange(9)] * sz
                f = lambda v: f"{v}.0" if self.fl else str(v)
                def nest(sh, it): return f(next(it)) if not sh else "[" + ", ".join(nest(sh[1:], it) for _ in range(sh[0])) + "]"
                self.emit(f"{x} = arith.constant dense<{nest(self.sh, iter(vs))}> : {t}")
            else: continue
            self.T.append(x)
        rs = []
        if extract:
            for _ in range(2):
                ix = [self.const(r.randrange(d), "index") for d in self.sh]
                x = self.fresh()
                self.emit(f"{x} = tensor.extract {r.choice(self.T[-4:])}[{', '.join(ix)}] : {t}")
                rs.append((x, self.ity))
        for _ in range(2): rs.append((r.choice(self.T[-3:]), t))
        return fn(sig, self, rs)

def fn(sig, g, rs):
    return (f"func.func @main({', '.join(a + ': ' + b for a, b in sig)}) -> ({', '.join(b for _, b in rs)}) {{\n{g.text()}\n"
            f"  return {', '.join(a for a, _ in rs)} : {', '.join(b for _, b in rs)}\n}}")

class Simd(gen.Gen):
    """Scalar code over the elements of vectors, as left by loop unrolling."""
    def build(self, kind=None, n=None, secret=False):
        r = self.r
        self.fl = self.ity.startswith("f")
        suf = "f" if self.fl else "i"
        n = self.n_ = n or r.choice([4, 4, 8, 3, 6, 2])
        t = self.t = f"tensor<{n}x{self.ity}>"
        kind = kind or r.choice(["elementwise", "stencil", "reduce", "dot", "mixed", "mixed", "chain"])
        nt = 2 if secret else 3
        sig = [(f"%t{k}", t) for k in range(nt)]
        ten = [s for s, _ in sig]
        C = {}
        def idx(k):
            if k not in C: C[k] = self.const(k, "index")
            return C[k]
        def ex(a, k, ty=None):
            x = self.fresh(); self.emit(f"{x} = tensor.extract {a}[{idx(k)}] : {ty or t}"); return x
        def bin(a, b, o=None):
            x = self.fresh(); self.emit(f"{x} = arith.{o or r.choice(['add', 'add', 'sub', 'mul'])}{suf} {a}, {b} : {self.ity}"); return x
        def ins(v, a, k):
            x = self.fresh(); self.emit(f"{x} = tensor.insert {v} into {a}[{idx(k)}] : {t}"); return x
        def cst():
            v = r.randrange(-3, 6)
            return self.const(f"{v}.0" if self.fl else v)
        def out0():
            if r.random() < .4: return r.choice(ten)
            x = self.fresh()
            self.emit(f"{x} = arith.constant dense<{'0.0' if self.fl else '0'}> : {t}"); return x
        for k in range(n): idx(k)
        rs = []
        if kind == "chain":           # rotations spelled out as insertions
            src = r.choice(ten); sh = r.randrange(n)
            d = out0(); order = list(range(n)); r.shuffle(order)
            if r.random() < .4: order = order[:-1]
            elif r.random() < .3: order.append(r.choice(order))
            mid = []
            for k in order:
                s = src if r.random() < .97 else r.choice(ten)
                d = ins(ex(s, (k + sh + (r.random() < .03)) % n), d, k); mid.append(d)
            rs = [(d, t)]
            if r.random() < .25:      # the chain forks: each branch writes a part
                o2 = list(range(n)); r.shuffle(o2); k0 = r.randrange(1, n)
                p0 = out0()
                for k in o2[:k0]: p0 = ins(ex(src, (k + sh) % n), p0, k)
                ends = []
                for _ in range(2):
                    q = p0; part = o2[k0:]; r.shuffle(part)
                    for k in part[:r.randrange(1, len(part) + 1)]: q = ins(ex(src, (k + sh) % n), q, k)
                    ends.append(q)
                rs += [(q, t) for q in ends]
            if r.random() < .5:       # a second user of an element of the chain
                m = r.choice(mid)
                if r.random() < .5: rs.append((m, t))
                else: rs.append((ins(ex(src, sh % n), m, r.randrange(n)), t))
        elif kind in ("elementwise", "stencil"):
            a, b = r.choice(ten), r.choice(ten); o1, o2 = r.choice(["add", "sub", "mul"]), r.choice(["add", "sub", "mul"])
            da, db, dc, dd = [r.randrange(n) if kind == "stencil" else 0 for _ in range(4)]
            c = cst() if r.random() < .5 else None
            d = out0(); src = a if r.random() < .5 else r.choice(ten)
            for k in range(n):
                v = bin(ex(a, (k + da) % n), ex(b, (k + db) % n), o1)
                if c: v = bin(v, c, o2) if r.random() < .9 else bin(c, v, o2)
                elif kind == "stencil": v = bin(v, ex(src, (k + dc) % n), o2)
                if r.random() < .05: continue
                d = ins(v, d, (k + dd) % n)
            rs = [(d, t)]
        elif kind in ("reduce", "dot"):
            o = r.choice(["add", "add", "mul"])
            def red(a):
                order = list(range(n))
                if r.random() < .6: r.shuffle(order)
                c = r.random()
                if c < .1: order = order[:-1]
                elif c < .2: order.append(r.choice(order))
                vs = [ex(a, k) if kind == "reduce" else bin(ex(a, k), ex(ten[1], k), "mul") for k in order]
                for _ in range(r.choice([0, 0, 0, 1, 2])): vs.insert(r.randrange(len(vs) + 1), cst() if r.random() < .5 or kind == "dot" else ex(r.choice(ten), r.randrange(n)))
                if r.random() < .5:
                    while len(vs) > 1:
                        i = r.randrange(len(vs) - 1); vs[i:i + 2] = [bin(vs[i], vs[i + 1], o if r.random() < .97 else "sub")]
                else:
                    acc = vs[0]
                    for v in vs[1:]: acc = bin(acc, v, o) if r.random() < .8 else bin(v, acc, o)
                    vs = [acc]
                return vs[0]
            x = red(ten[0]); rs = [(x, self.ity)]
            if r.random() < .4:
                y = red(ten[1] if r.random() < .7 else ten[0]); rs.append((bin(x, y, o), self.ity))
                if r.random() < .3: rs.append((y, self.ity))
            if r.random() < .3:
                d = ins(x, out0(), r.randrange(n)); rs = [(d, t)]
        else:
            vals = [ex(r.choice(ten), r.randrange(n)) for _ in range(4)] + [cst()]
            if not secret and r.random() < .25:      # a vector of another length
                n2 = n + r.choice([2, 4]); t2 = f"tensor<{n2}x{self.ity}>"; sig.append(("%u", t2))
                for k in range(n, n2): idx(k)
                vals += [ex("%u", r.randrange(n2), t2) for _ in range(3)]; r.shuffle(vals)
            d = out0(); ds = [d]
            for _ in range(r.randrange(6, 16)):
                c = r.random()
                if c < .3: vals.append(ex(r.choice(ten + ds[-2:]), r.randrange(n)))
                elif c < .8: vals.append(bin(r.choice(vals[-6:]), r.choice(vals[-6:])))
                elif c < .85: vals.append(cst())
                else: d = ins(r.choice(vals[-4:]), r.choice(ds[-2:]), r.randrange(n)); ds.append(d)
            rs = [(vals[-1], self.ity), (ds[-1], t)]
        if secret: return secret_fn(sig, self, rs)
        return fn(sig, self, rs)

def secret_fn(sig, g, rs):
    body = "\n".join("  " + l for l in g.text().split("\n"))
    ins = ", ".join(f"%q{k}: !secret.secret<{t}>" for k, (_, t) in enumerate(sig))
    outs = ", ".join(f"!secret.secret<{t}>" for _, t in rs)
    for k, (a, _) in enumerate(sig): pass
    ba = ", ".join(f"{a}: {t}" for a, t in sig)
    res = ", ".join(f"%o#{k}" for k in range(len(rs))) if len(rs) > 1 else "%o"
    head = "%o" + (f":{len(rs)}" if len(rs) > 1 else "")
    return (f"func.func @main({ins}) -> ({outs}) {{\n  {head} = secret.generic({', '.join(f'%q{k}: !secret.secret<{t}>' for k, (_, t) in enumerate(sig))}) {{\n"
            f"  ^body({ba}):\n{body}\n    secret.yield {', '.join(a for a, _ in rs)} : {', '.join(t for _, t in rs)}\n  }} -> ({outs})\n"
            f"  return {res} : {outs}\n}}")

class Tree(gen.Gen):
    """Reductions written with rotations of whole tensors."""
    def build(self, secret=False):
        r = self.r; n = r.choice([4, 8, 8, 16, 6]); self.fl = self.ity.startswith("f"); suf = "f" if self.fl else "i"
        t = f"tensor<{n}x{self.ity}>"
        sig = [("%t0", t), ("%t1", t)]; o = r.choice(["add", "mul"])
        def rot(a, k):
            if k % n == 0 and r.random() < .7: return a
            c = self.const(k, "index"); x = self.fresh(); self.emit(f"{x} = tensor_ext.rotate {a}, {c} : {t}, index"); return x
        def bin(a, b, op=o):
            x = self.fresh(); self.emit(f"{x} = arith.{op}{suf} {a}, {b} : {t}"); return x
        def red(a):
            order = list(range(n))
            if r.random() < .5: r.shuffle(order)
            c = r.random()
            if c < .12: order = order[:-1]
            elif c < .2: order.append(r.choice(order))
            elif c < .3: order = [k + n * r.randrange(2) for k in order]
            vs = [rot(a, k) for k in order]
            if r.random() < .3: vs.insert(r.randrange(len(vs)), rot(sig[1][0], r.randrange(n)))
            acc = vs[0]
            if r.random() < .7:
                for v in vs[1:]: acc = bin(acc, v)
            else:
                while len(vs) > 1:
                    i = r.randrange(len(vs) - 1); vs[i:i + 2] = [bin(vs[i], vs[i + 1])]
                acc = vs[0]
            return acc
        a = "%t0"
        if r.random() < .4: a = bin("%t0", "%t1", "mul")
        x = red(a); rs = [(x, t)]
        if r.random() < .3: y = red("%t1"); rs = [(bin(x, y), t)]
        return secret_fn(sig, self, rs) if secret else fn(sig, self, rs)

def rr(r, ity):
    """tensor_ext.rotate_and_reduce with any period, number of steps, plaintexts."""
    n = r.choice([2, 4, 8, 8, 16, 5, 6, 12]); two = r.random() < .25
    t = f"tensor<{'1x' if two else ''}{n}x{ity}>"
    steps = r.choice([n, n, r.randrange(1, n + 1)])
    per = r.choice([1, 1, 1, 2, r.randrange(1, n + 1)])
    suf = "f" if ity[0] == "f" else "i"
    if r.random() < .55:
        p = f"tensor<{steps}x{n}x{ity}>" if not two else f"tensor<{steps}x1x{n}x{ity}>"
        p = f"tensor<{steps}x{n}x{ity}>"
        red = r.choice(["", f", reduceOp = \"arith.add{suf}\""]) if suf == "i" else f", reduceOp = \"arith.addf\""
        return f"func.func @main(%a: {t}, %p: {p}) -> {t} {{\n  %r = tensor_ext.rotate_and_reduce %a, %p {{period = {per} : index, steps = {steps} : index{red}}} : ({t}, {p}) -> {t}\n  return %r : {t}\n}}"
    red = f", reduceOp = \"arith.{r.choice(['add', 'add', 'mul'])}{suf}\""
    return f"func.func @main(%a: {t}) -> {t} {{\n  %r = tensor_ext.rotate_and_reduce %a {{period = {per} : index, steps = {steps} : index{red}}} : ({t}) -> {t}\n  return %r : {t}\n}}"

class Straight(gen.Gen):
    """Scalar code of several widths for the straight-line vectorizer."""
    def build(self):
        r = self.r
        sig = [(f"%a{k}", "i8") for k in range(4)] + [(f"%b{k}", "i16") for k in range(2)]
        V = {"i8": [f"%a{k}" for k in range(4)], "i16": ["%b0", "%b1"], "i1": []}
        pick = lambda t: r.choice(V[t][-7:])
        def put(t, s):
            x = self.fresh(); self.emit(f"{x} = {s}"); V[t].append(x)
        def step(d):
            c = r.random()
            if c < .5:
                t = r.choice(["i8", "i8", "i16"]); o = r.choice(["addi", "subi", "muli", "andi"])
                put(t, f"arith.{o} {pick(t)}, {pick(t)} : {t}")
            elif c < .6: put("i16", f"arith.{r.choice(['extsi', 'extui'])} {pick('i8')} : i8 to i16")
            elif c < .68: put("i8", f"arith.trunci {pick('i16')} : i16 to i8")
            elif c < .76: t = r.choice(["i8", "i16"]); put("i1", f"arith.cmpi {r.choice(['slt', 'eq'])}, {pick(t)}, {pick(t)} : {t}")
            elif c < .85 and V["i1"]: t = r.choice(["i8", "i16"]); put(t, f"arith.select {pick('i1')}, {pick(t)}, {pick(t)} : {t}")
            elif c < .95 and V["i1"] and d:
                b = pick("i1"); x = self.fresh()
                self.emit(f"{x} = scf.if {b} -> (i8) {{")
                for k in (0, 1):
                    sv = {t: list(l) for t, l in V.items()}
                    for _ in range(r.randrange(0, 3)): step(d - 1)
                    self.emit(f"scf.yield {pick('i8')} : i8"); V.update(sv)
                    self.emit("} else {" if k == 0 else "}")
                V["i8"].append(x)
        for _ in range(r.randrange(5, 14)): step(1)
        rs = [(V["i8"][-1], "i8"), (V["i16"][-1], "i16"), (r.choice(V["i8"]), "i8")]
        return fn(sig, self, rs)

SIMD = "--apply-folders --canonicalize --insert-rotate --cse --canonicalize --cse --collapse-insertion-chains --sccp --canonicalize --cse --rotate-and-reduce --sccp --apply-folders --canonicalize --cse"

def run(c):
    r = c.rng
    n = c.scale(110, 700)
    ity = lambda: r.choice(["i8", "i16", "i8", "f32"])
    G = lambda cls, **k: [cls(r, ity()).build(**k) for _ in range(n)]
    jobs = [
        ("canonicalize", "--canonicalize", G(Rot)),
        ("canonicalize-dyn", "--canonicalize --cse", G(Rot, dyn=True)[:n // 2]),
        ("insert-rotate-tensors", "--insert-rotate --canonicalize --cse", G(Rot)),
        ("insert-rotate", "--canonicalize --insert-rotate --cse --canonicalize", G(Simd)),
        ("collapse-insertion-chains", "--collapse-insertion-chains --canonicalize", G(Simd, kind="chain")),
        ("rotate-and-reduce", "--rotate-and-reduce --canonicalize --cse", G(Simd, kind="reduce")[:n // 2] + G(Simd, kind="dot")[:n // 4]),
        ("rotate-and-reduce-tensors", "--rotate-and-reduce --canonicalize --cse", G(Tree)),
        ("simd", SIMD, G(Simd)),
        ("heco", "--heco-simd-vectorizer", G(Simd, secret=True)),
        ("implement", "--implement-rotate-and-reduce", [rr(r, ity()) for _ in range(n)]),
        ("implement-rolled", "--implement-rotate-and-reduce=unroll=false", [rr(r, ity()) for _ in range(n // 2)]),
        ("to-tensor", "--tensor-ext-to-tensor", G(Rot, dyn=True)),
        ("straight-line", "--straight-line-vectorize=dialect=arith", [Straight(r, "i8").build() for _ in range(n)]),
    ]
    for label, pipe, mods in jobs:
        programs.compare(c, label, pipe, mods, r, ninputs=c.scale(4, 8))
