"""C13: passes over memory, tensors and loops keep the meaning of the program."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, gen, programs

class Mem(gen.Gen):
    """Functions over memrefs: loads and stores with constant, loop and
    unknown indices, loops, branches, copies, calls."""
    def start(self, **o):
        self.o = o
        self.shapes = [[4], [2, 3]] if not o.get("one") else [[3]]
        sig = []
        for k in range(o.get("marg", 1)):
            sh = self.r.choice(self.shapes)
            sig.append((f"%am{k}", "memref<" + gen.mshape(sh, self.ity) + ">"))
            self.add("mem", (f"%am{k}", sh, "arg"))
        for k in range(2):
            sig.append((f"%x{k}", self.ity)); self.add("v", f"%x{k}")
        if o.get("dyn", True):
            for k in range(2):
                sig.append((f"%i{k}", "index")); self.add("ix", (f"%i{k}", 2))
        self.sig = sig
        for _ in range(o.get("allocs", 2)): self.alloc()

    def alloc(self):
        sh = self.r.choice(self.shapes)
        m = self.fresh("m")
        self.emit(f"{m} = memref.alloc() : memref<{gen.mshape(sh, self.ity)}>")
        self.add("mem", (m, sh, "alloc"))
        # every cell is written before it can be read
        import itertools
        for ix in itertools.product(*[range(d) for d in sh]):
            self.emit(f"affine.store {self.val()}, {m}[{', '.join(map(str, ix))}] : memref<{gen.mshape(sh, self.ity)}>")

    def index(self, bound, aff=True):
        """(affine expression text, needs index value)"""
        c = self.r.random()
        ok = [(x, b) for x, b in self.all("ix") if b <= bound]
        if c < .5 or not ok: return str(self.r.randrange(bound)), None
        x, b = self.r.choice(ok)
        if aff and self.r.random() < .4 and bound - b > 0:
            return f"{x} + {self.r.randrange(1, bound - b + 1)}", None
        if aff and self.r.random() < .2: return f"{bound - 1} - {x}", None
        return x, None

    def load(self):
        m, sh, _ = self.r.choice(self.all("mem"))
        ix = [self.index(d)[0] for d in sh]
        x = self.fresh()
        if self.o.get("aff") or self.r.random() < .6:
            self.emit(f"{x} = affine.load {m}[{', '.join(ix)}] : memref<{gen.mshape(sh, self.ity)}>")
        else:
            self.emit(f"{x} = memref.load {m}[{', '.join(self.ssa(d) for d in sh)}] : memref<{gen.mshape(sh, self.ity)}>")
        self.add("v", x)

    def ssa(self, d):
        s = self.index(d, aff=False)[0]
        return self.const(s, "index") if not s.startswith("%") else s

    def store(self):
        m, sh, _ = self.r.choice(self.all("mem"))
        v = self.val()
        if self.o.get("aff") or self.r.random() < .6:
            self.emit(f"affine.store {v}, {m}[{', '.join(self.index(d)[0] for d in sh)}] : memref<{gen.mshape(sh, self.ity)}>")
        else:
            self.emit(f"memref.store {v}, {m}[{', '.join(self.ssa(d) for d in sh)}] : memref<{gen.mshape(sh, self.ity)}>")

    def loop(self, depth):
        lo = self.r.choice([0, 0, 0, 1]); step = self.r.choice([1, 1, 1, 2]); hi = self.r.choice([2, 2, 3, 4, 4 if self.o.get("nonempty") else lo])
        iv = self.fresh("k")
        carry = self.r.random() < self.o.get("carry", .4)
        st = f" step {step}" if step > 1 else ""
        if carry:
            init = self.val(); acc = self.fresh("a"); res = self.fresh("l")
            self.emit(f"{res} = affine.for {iv} = {lo} to {hi}{st} iter_args({acc} = {init}) -> ({self.ity}) {{")
        else:
            self.emit(f"affine.for {iv} = {lo} to {hi}{st} {{")
        self.push()
        if hi > lo: self.add("ix", (iv, hi))
        if carry: self.add("v", acc)
        self.body(self.r.randrange(1, 5), depth - 1)
        if carry: self.emit(f"affine.yield {self.val()} : {self.ity}")
        self.pop(); self.emit("}")
        if carry: self.add("v", res)

    def branch(self, depth):
        c = self.fresh("b")
        self.emit(f"{c} = arith.cmpi slt, {self.val()}, {self.val()} : {self.ity}")
        res = self.fresh("f")
        self.emit(f"{res} = scf.if {c} -> ({self.ity}) {{")
        for part in (0, 1):
            self.push(); self.body(self.r.randrange(0, 3), depth - 1)
            self.emit(f"scf.yield {self.val()} : {self.ity}"); self.pop()
            self.emit("} else {" if part == 0 else "}")
        self.add("v", res)

    def copy(self):
        ms = self.all("mem")
        a = self.r.choice(ms)
        l = [b for b in ms if b[1] == a[1] and b[0] != a[0]]
        if l:
            b = self.r.choice(l); t = f"memref<{gen.mshape(a[1], self.ity)}>"
            self.emit(f"memref.copy {a[0]}, {b[0]} : {t} to {t}")

    def call(self):
        l = [m for m in self.all("mem") if m[1] == self.shapes[0]]
        if l:
            m = self.r.choice(l)
            self.used.add("touch")
            self.emit(f"func.call @touch({m[0]}) : (memref<{gen.mshape(m[1], self.ity)}>) -> ()")

    def body(self, n, depth):
        for _ in range(n):
            c = self.r.random()
            if c < .3: self.store()
            elif c < .62: self.load()
            elif c < .75: self.arith()
            elif c < .88 and depth > 0 and self.o.get("loops", True): self.loop(depth)
            elif c < .92 and depth > 0 and self.o.get("ifs", True): self.branch(depth)
            elif c < .96 and self.o.get("copies"): self.copy()
            elif self.o.get("calls"): self.call()

    def build(self, n=10, depth=2, **o):
        self.start(**o)
        self.body(n, depth)
        for _ in range(2): self.load()
        rs = [self.pick("v") for _ in range(2)]
        t = self.text()
        sg = ", ".join(f"{a}: {b}" for a, b in self.sig)
        s = f"func.func @main({sg}) -> ({self.ity}, {self.ity}) {{\n{t}\n  return {rs[0]}, {rs[1]} : {self.ity}, {self.ity}\n}}"
        if "touch" in self.used:
            mt = f"memref<{gen.mshape(self.shapes[0], self.ity)}>"
            s += f"""
func.func @touch(%m: {mt}) {{
  %v = affine.load %m[0] : {mt}
  %w = affine.load %m[1] : {mt}
  %s = arith.addi %v, %w : {self.ity}
  affine.store %s, %m[1] : {mt}
  affine.store %w, %m[2] : {mt}
  return
}}"""
        return s

class Ten(gen.Gen):
    """Functions over tensors: insert/extract and slices at constant and unknown positions."""
    def build(self, n=10, slices=False, dyn=True):
        self.sh = self.r.choice([[4], [2, 3]]) if not slices else self.r.choice([[6], [3, 4]])
        t = f"tensor<{gen.mshape(self.sh, self.ity)}>"
        sig = [("%t0", t), ("%x0", self.ity), ("%x1", self.ity)]
        self.add("ten", "%t0"); self.add("v", "%x0"); self.add("v", "%x1")
        if dyn:
            sig += [("%i0", "index"), ("%i1", "index")]
            self.add("ix", ("%i0", 2)); self.add("ix", ("%i1", 2))
        if self.r.random() < .5:
            x = self.fresh("t")
            vals = [self.r.randrange(-9, 9) for _ in range(gen_prod(self.sh))]
            if self.r.random() < .5:
                self.emit(f"{x} = arith.constant dense<{nest(vals, self.sh)}> : {t}")
            elif self.r.random() < .5:
                self.emit(f"{x} = arith.constant dense<{vals[0]}> : {t}")
            else:
                self.emit(f"{x} = tensor.from_elements {', '.join(self.val() for _ in vals)} : {t}")
            self.add("ten", x)
        parts = {}
        for _ in range(n):
            c = self.r.random()
            T = self.pick("ten")
            if slices and c < .7:
                off, siz, st = [], [], []
                for d in self.sh:
                    s = self.r.choice([k for k in (1, 2, 3) if k <= d])
                    stride = self.r.choice([1, 1, 2]) if 1 + (s - 1) * 2 <= d else 1
                    room = d - ((s - 1) * stride + 1)
                    o = str(self.r.randrange(room + 1))
                    if dyn and room >= 1 and self.r.random() < .35: o = self.r.choice(["%i0", "%i1"])
                    off.append(o); siz.append(s); st.append(stride)
                if getattr(self, "pos", None) and self.r.random() < .4: off, siz, st = self.pos
                elif self.r.random() < .5: self.pos = (off, siz, st)
                red = self.r.random() < .25 and any(s == 1 for s in siz)
                rt = list(siz)
                if red: rt.remove(1)
                ty = f"tensor<{gen.mshape(rt, self.ity)}>"
                pos = f"[{', '.join(off)}] [{', '.join(map(str, siz))}] [{', '.join(map(str, st))}]"
                x = self.fresh("s")
                if c < .35 and not parts.get(ty):
                    y = self.fresh("e"); self.emit(f"{y} = tensor.splat {self.val()} : {ty}"); parts.setdefault(ty, []).append(y)
                if c < .35:
                    self.emit(f"{x} = tensor.insert_slice {self.r.choice(parts[ty])} into {T}{pos} : {ty} into {t}")
                    self.add("ten", x); self.last = (pos, ty)
                else:
                    if getattr(self, "last", None) and self.r.random() < .35: pos, ty = self.last
                    self.emit(f"{x} = tensor.extract_slice {T}{pos} : {t} to {ty}")
                    parts.setdefault(ty, []).append(x)
            elif c < .75:
                ix = [self.ssa(d) for d in self.sh]
                x = self.fresh("t")
                self.emit(f"{x} = tensor.insert {self.val()} into {T}[{', '.join(ix)}] : {t}")
                self.add("ten", x)
            elif c < .9:
                x = self.fresh()
                self.emit(f"{x} = tensor.extract {T}[{', '.join(self.ssa(d) for d in self.sh)}] : {t}")
                self.add("v", x)
            else: self.arith()
        x = self.fresh()
        T = self.pick("ten")
        self.emit(f"{x} = tensor.extract {T}[{', '.join(self.ssa(d) for d in self.sh)}] : {t}")
        rets, tys = [T, x, self.pick("v")], [t, self.ity, self.ity]
        for ty, l in parts.items():
            rets.append(l[-1]); tys.append(ty)
        return (f"func.func @main({', '.join(f'{a}: {b}' for a, b in sig)}) -> ({', '.join(tys)}) {{\n{self.text()}\n"
                f"  return {', '.join(rets)} : {', '.join(tys)}\n}}")

    def ssa(self, d):
        ok = [x for x, b in self.all("ix") if b <= d]
        if ok and self.r.random() < .35: return self.r.choice(ok)
        return self.const(self.r.randrange(d), "index")

def chain(r):
    """A run of slice (or element) insertions, then an extraction at one of their positions."""
    g = gen.Gen(r)
    n = r.choice([4, 5, 6]); w = r.choice([1, 2])
    t, st = f"tensor<{n}xi8>", f"tensor<{w}xi8>"
    cur = "%t0" if r.random() < .6 else "%e"
    g.emit(f"%e = tensor.empty() : {t}")
    pos = []
    for _ in range(r.randrange(2, 5)):
        o = r.choice(["%i0", "%i1"]) if r.random() < .4 else str(r.randrange(n - w + 1))
        stride = 1 if w == 1 or not o.isdigit() or int(o) + 2 >= n or r.random() < .7 else 2
        x = g.fresh("q")
        g.emit(f"{x} = tensor.insert_slice {r.choice(['%s0', '%s1', '%s2'])} into {cur}[{o}] [{w}] [{stride}] : {st} into {t}")
        cur = x; pos.append((o, stride))
    o, stride = r.choice(pos[:2]) if r.random() < .8 else ("%i0", 1)
    g.emit(f"%r = tensor.extract_slice {cur}[{o}] [{w}] [{stride}] : {t} to {st}")
    return (f"func.func @main(%t0: {t}, %s0: {st}, %s1: {st}, %s2: {st}, %i0: index, %i1: index) -> {st} {{\n{g.text()}\n"
            f"  return %r : {st}\n}}")

def globals_(r):
    g = gen.Gen(r)
    sh = r.choice([[4], [2, 3], [2, 2, 2]])
    t = f"memref<{gen.mshape(sh, 'i8')}>"
    vals = [r.randrange(-9, 9) for _ in range(gen_prod(sh))]
    init = nest(vals, sh) if r.random() < .8 else str(vals[0])
    g.add("v", "%x0")
    dyn = r.random() < .4
    def one():
        m = g.fresh("m")
        g.emit(f"{m} = memref.get_global @g : {t}")
        for _ in range(r.randrange(1, 4)):
            x = g.fresh()
            ix = [r.choice(["%i0", "%i1"]) if dyn and r.random() < .3 else str(r.randrange(d)) for d in sh]
            if r.random() < .5: g.emit(f"{x} = affine.load {m}[{', '.join(ix)}] : {t}")
            else:
                ix = [i if i[0] == "%" else g.const(i, "index") for i in ix]
                g.emit(f"{x} = memref.load {m}[{', '.join(ix)}] : {t}")
            g.add("v", x)
        for _ in range(2): g.arith()
    for _ in range(r.randrange(1, 3)): one()
    return (f"memref.global \"private\" constant @g : {t} = dense<{init}>\n"
            f"func.func @main(%x0: i8, %i0: index, %i1: index) -> (i8, i8) {{\n{g.text()}\n  return {g.pick('v')}, {g.all('v')[-1]} : i8, i8\n}}")

def loopbody(r):
    g = gen.Gen(r)
    sh = r.choice([[4], [2, 3], [3]])
    t = f"memref<{gen.mshape(sh, 'i8')}>"
    ivs = [f"%k{n}" for n in range(len(sh))]
    cs = [g.add("v", g.const(r.randrange(-9, 9))) for _ in range(2)] if r.random() < .5 else []
    for n, d in enumerate(sh):
        g.emit(f"affine.for {ivs[n]} = 0 to {d} {{"); g.push()
    outer = g.scopes; g.scopes = [dict(v=list(cs))]
    for m in r.sample(["%ma", "%mb"], r.randrange(1, 3)):
        x = g.fresh(); ix = ", ".join(ivs if r.random() < .7 else [str(r.randrange(d)) for d in sh])
        g.emit(f"{x} = affine.load {m}[{ix}] : {t}"); g.add("v", x)
    if r.random() < .3:
        # a value that only serves to address a load
        ap = g.fresh("p"); y = g.fresh()
        g.emit(f"{ap} = affine.apply affine_map<(d0) -> ({sh[-1] - 1} - d0)>({ivs[-1]})")
        g.emit(f"{y} = memref.load %mb[{', '.join(ivs[:-1] + [ap])}] : {t}"); g.add("v", y)
    last = g.fresh()
    a = g.pick("v")
    g.emit(f"{last} = arith.addi {a}, {g.val()} : i8"); g.add("v", last)
    for _ in range(r.randrange(0, 5)):
        x = g.fresh(); g.emit(f"{x} = arith.{r.choice(['addi', 'subi', 'muli', 'maxsi'])} {last}, {g.pick('v')} : i8"); g.add("v", x); last = x
    if r.random() < .25:
        g.emit(f"{g.fresh()} = arith.addi {last}, {g.pick('v')} : i8")
    g.emit(f"affine.store {last}, %mc[{', '.join(ivs)}] : {t}")
    g.scopes = outer
    for _ in sh: g.pop(); g.emit("}")
    return f"func.func @main(%ma: {t}, %mb: {t}, %mc: {t}) {{\n{g.text()}\n  return\n}}"

def purecall(r):
    """Calls to client helpers with unused results disappear, all others stay."""
    g = gen.Gen(r)
    g.add("v", "%x0")
    t = "memref<4xi8>"
    for _ in range(r.randrange(3, 8)):
        f = r.choice(["helper", "helper2", "plain"])
        x = g.fresh()
        g.emit(f"{x} = func.call @{f}(%am0, {g.val()}) : ({t}, i8) -> i8")
        if r.random() < .5: g.add("v", x)
        if r.random() < .4: g.arith()
    return f"""func.func @main(%am0: {t}, %x0: i8) -> i8 {{
{g.text()}
  return {g.pick('v')} : i8
}}
func.func private @helper(%am0: {t}, %x: i8) -> i8 attributes {{client.{r.choice(['enc', 'dec'])}_func = {{func_name = "main", index = 0 : i64}}}} {{
  %v = affine.load %am0[1] : {t}
  %s = arith.addi %v, %x : i8
  return %s : i8
}}
func.func private @helper2(%am0: {t}, %x: i8) -> i8 attributes {{client.pack_func = {{func_name = "main"}}}} {{
  %s = arith.muli %x, %x : i8
  return %s : i8
}}
func.func private @plain(%am0: {t}, %x: i8) -> i8 {{
  %v = affine.load %am0[1] : {t}
  %s = arith.addi %v, %x : i8
  affine.store %s, %am0[1] : {t}
  return %s : i8
}}"""

def gen_prod(l):
    r = 1
    for x in l: r *= x
    return r

def nest(v, sh):
    if not sh: return str(v[0])
    k = gen_prod(sh[1:])
    return "[" + ", ".join(nest(v[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])) + "]"

LEVEL = "translation_validation"
def run(c):
    c.build("hopt")
    r = c.rng
    N = c.scale(1, 8)
    J = []   # (label, pipeline, modules)
    mem = lambda k, **o: [Mem(r).build(r.randrange(4, 14), **o) for _ in range(k)]
    ten = lambda k, **o: [Ten(r).build(r.randrange(3, 12), **o) for _ in range(k)]
    J.append(("forward-store-to-load", ["--forward-store-to-load"], mem(90 * N, calls=True, copies=True, marg=2)))
    J.append(("forward-store-to-load", ["--forward-store-to-load"], mem(60 * N, one=True, depth=0, marg=1, allocs=1)))
    J.append(("remove-unused-memref", ["--remove-unused-memref"], mem(40 * N, calls=True)))
    J.append(("full-loop-unroll", ["--full-loop-unroll"], mem(50 * N)))
    J.append(("expand-copy", ["--expand-copy"], mem(30 * N, copies=True, marg=2, loops=False)))
    J.append(("expand-copy-unrolled", ["--expand-copy=disable-affine-loop=true"], mem(20 * N, copies=True, marg=2, loops=False)))
    J.append(("unroll-forward-clean", ["--full-loop-unroll", "--canonicalize", "--forward-store-to-load", "--remove-unused-memref", "--cse"],
              mem(50 * N, marg=2, copies=True)))
    J.append(("forward-insert-to-extract", ["--forward-insert-to-extract"], ten(100 * N)))
    J.append(("forward-insert-to-extract", ["--canonicalize", "--forward-insert-to-extract", "--cse"], ten(40 * N, dyn=False)))
    J.append(("forward-insert-slice-to-extract-slice", ["--forward-insert-slice-to-extract-slice"], ten(110 * N, slices=True)))
    J.append(("forward-insert-slice-to-extract-slice", ["--forward-insert-slice-to-extract-slice"], [chain(r) for _ in range(120 * N)]))
    J.append(("memref-global-replace", ["--memref-global-replace"], [globals_(r) for _ in range(50 * N)]))
    J.append(("extract-loop-body", ["--extract-loop-body=min-loop-size=1 min-body-size=1"], [loopbody(r) for _ in range(60 * N)]))
    J.append(("unroll-and-forward", ["--unroll-and-forward"], mem(60 * N, aff=True, dyn=False, ifs=False, carry=0, marg=2, nonempty=True)))
    J.append(("remove-unused-pure-call", ["--remove-unused-pure-call"], [purecall(r) for _ in range(30 * N)]))
    for label, pipe, mods in J:
        programs.compare(c, label, pipe, mods, rng=r, ninputs=5)
    c.count("programs", 0)

if __name__ == "__main__":
    hv.main("C13", run, level="translation_validation")
