"""C01: what is computed on packed ciphertexts is what the program says."""
import sys, os, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools")
import hv, norm, programs
LEVEL = "translation_validation"

def prod(l):
    p = 1
    for x in l: p *= x
    return p

class Prog:
    """A random function over secret and plaintext tensors."""
    def __init__(self, r, e="f32"):
        self.r, self.e, self.fl = r, e, e[0] == "f"
        self.n = 0; self.out = []; self.R0 = []; self.V = []; self.args = []; self.only = []
    def T(self, s): return self.e if not s else "tensor<" + "x".join(map(str, s)) + f"x{self.e}>"
    def fresh(self, p="v"):
        self.n += 1; return f"%{p}{self.n}"
    def op(self, text, sh=None, sec=True, keep=True):
        x = self.fresh(); self.out.append(f"{x} = {text}")
        if sh is not None and keep: self.V.append((x, list(sh), sec))
        return x
    def num(self, lo=0): return self.r.choice([0, 1, 2, 3, -1, 5][lo:])
    def lit(self, v): return f"{v}.0" if self.fl else str(v)
    def arg(self, sh, sec=True):
        x = f"%a{len(self.args)}"; self.args.append((x, self.T(sh), sec)); self.V.append((x, list(sh), sec)); return x
    def dense(self, sh):
        if not sh: return self.lit(self.num())
        return "[" + ", ".join(self.dense(sh[1:]) for _ in range(sh[0])) + "]"
    def cst(self, sh, splat=None):
        r = self.r
        if not sh: return self.op(f"arith.constant {self.lit(self.num())} : {self.e}")
        v = self.lit(self.num()) if splat or (splat is None and r.random() < .15) else self.dense(sh)
        return self.op(f"arith.constant dense<{v}> : {self.T(sh)}")
    def zero(self, sh): return self.op(f"arith.constant {'dense<' + self.lit(0) + '>' if sh else self.lit(0)} : {self.T(sh)}")
    def secret(self, sh=None, rank=None, p=.75):
        """a secret value, of this shape or rank"""
        r = self.r
        l = [v for v in self.V if v[2] and (sh is None or v[1] == list(sh)) and (rank is None or len(v[1]) == rank)]
        if l and r.random() < p: v = r.choice(l[-3:]); return v[0], v[1]
        s = list(sh) if sh is not None else self.shape(rank)
        return self.arg(s), s
    def plain(self, sh):
        return self.cst(sh) if self.r.random() < .85 else self.arg(sh, False)
    def shape(self, rank=None):
        r = self.r; rank = rank if rank is not None else r.choice([1, 1, 2, 2, 3, 0])
        return [r.choice([1, 2, 3, 4, 5, 8] if rank < 3 else [1, 2, 3]) for _ in range(rank)]
    def bin(self, o, a, b, sh): return self.op(f"arith.{o}{'f' if self.fl else 'i'} {a}, {b} : {self.T(sh)}", sh)
    def init(self, sh, p=.55):
        r = self.r
        if r.random() < p: return self.zero(sh)
        return self.secret(sh, p=.5)[0] if r.random() < .6 else self.plain(sh)
    # ---- operations
    def k_elem(self):
        r = self.r; a, s = self.secret()
        b = self.plain(s) if r.random() < .35 else self.secret(s)[0]
        if r.random() < .5: a, b = b, a
        self.bin(r.choice(["add", "add", "sub", "mul"]), a, b, s)
    def k_matvec(self):
        r = self.r; v, s = self.secret(rank=1); m = r.choice([1, 2, 3, 4, 5, 6]); k = [m, s[0]]
        self.op(f"linalg.matvec ins({self.cst(k)}, {v} : {self.T(k)}, {self.T(s)}) outs({self.init([m])} : {self.T([m])}) -> {self.T([m])}", [m])
    def k_vecmat(self):
        r = self.r; v, s = self.secret(rank=1); m = r.choice([1, 2, 3, 4, 5, 6]); k = [s[0], m]
        self.op(f"linalg.vecmat ins({v}, {self.cst(k)} : {self.T(s)}, {self.T(k)}) outs({self.init([m])} : {self.T([m])}) -> {self.T([m])}", [m])
    def k_dot(self):
        r = self.r; v, s = self.secret(rank=1); w = self.secret(s)[0] if r.random() < .6 else self.cst(s)
        self.R0.append(self.op(f"linalg.dot ins({v}, {w} : {self.T(s)}, {self.T(s)}) outs({self.zero_t() if r.random() < .6 else self.rank0()} : tensor<{self.e}>) -> tensor<{self.e}>"))
    def rank0(self):
        r = self.r; t = f"tensor<{self.e}>"
        if self.R0 and r.random() < .7: return r.choice(self.R0)
        if r.random() < .4: return self.op(f"arith.constant dense<{self.lit(self.num())}> : {t}")
        x = f"%a{len(self.args)}"; self.args.append((x, t, True)); self.R0.append(x); return x
    def k_rank0(self):
        """arithmetic on rank-0 tensors; the scalar of one"""
        r = self.r; t = f"tensor<{self.e}>"
        if r.random() < .6:
            a = self.rank0()
            self.R0.append(self.op(f"arith.{r.choice(['add', 'sub', 'mul'])}{'f' if self.fl else 'i'} {a}, {self.rank0()} : {t}"))
        else:
            l = [x for x in self.R0]
            if not l: self.k_dot(); l = self.R0
            self.op(f"tensor.extract {r.choice(l)}[] : {t}", [])
    def zero_t(self): return self.op(f"arith.constant dense<{self.lit(0)}> : tensor<{self.e}>")
    def k_matmul(self):
        r = self.r; a, s = self.secret(rank=2); n = r.choice([1, 2, 3, 4]); k = [s[1], n]; o = [s[0], n]
        b = self.cst(k) if r.random() < .6 else self.secret(k)[0]
        x, t, kk, oo = a, s, k, o
        if r.random() < .3:
            kk = [n, s[0]]; oo = [n, s[1]]; b = self.cst(kk) if r.random() < .6 else self.secret(kk)[0]
            self.op(f"linalg.matmul ins({b}, {a} : {self.T(kk)}, {self.T(s)}) outs({self.init(oo)} : {self.T(oo)}) -> {self.T(oo)}", oo); return
        self.op(f"linalg.matmul ins({a}, {b} : {self.T(s)}, {self.T(k)}) outs({self.init(o)} : {self.T(o)}) -> {self.T(o)}", o)
    def k_bmm(self):
        r = self.r; a, s = self.secret(rank=3); n = r.choice([1, 2, 3]); k = [s[0], s[2], n]; o = [s[0], s[1], n]
        b = self.secret(k)[0] if r.random() < .5 else self.cst(k)
        self.op(f"linalg.batch_matmul ins({a}, {b} : {self.T(s)}, {self.T(k)}) outs({self.init(o)} : {self.T(o)}) -> {self.T(o)}", o)
    def k_reduce(self):
        r = self.r; a, s = self.secret(rank=r.choice([1, 2, 2, 3]))
        d = sorted(r.sample(range(len(s)), r.choice([1, 1, len(s)]) if len(s) > 1 else 1)); o = [x for i, x in enumerate(s) if i not in d]
        f = f"arith.{r.choice(['add', 'add', 'mul'])}{'f' if self.fl else 'i'}"
        i = self.cst(o) if o else self.op(f"arith.constant dense<{self.lit(self.num())}> : tensor<{self.e}>")
        if r.random() < .6: i = self.zero(o) if o else self.zero_t()
        t = self.T(o) if o else f"tensor<{self.e}>"
        x = self.op(f"linalg.reduce {{ {f} }} ins({a} : {self.T(s)}) outs({i} : {t}) dimensions = {d}", o if o else None)
        if not o: self.R0.append(x)
    def k_conv(self):
        r = self.r; kind = r.choice(["conv_1d", "conv_2d", "conv_1d_ncw_fcw", "conv_2d_nchw_fchw"])
        F, C = r.choice([1, 2]), r.choice([1, 2]); nd = 1 if "1d" in kind else 2
        K = [r.choice([1, 2, 3]) for _ in range(nd)]; st = [r.choice([1, 1, 2]) for _ in range(nd)] if "_nc" in kind else [1] * nd
        O = [r.choice([1, 2, 3]) for _ in range(nd)]; I = [(o - 1) * s + k for o, s, k in zip(O, st, K)]
        i, k, o = (I, K, O) if "_nc" not in kind else ([1, C] + I, [F, C] + K, [1, F] + O)
        if r.random() < .3 and min(I) > 2:
            lo = [r.choice([0, 1]) for _ in I]; hi = [r.choice([0, 1]) for _ in I]; q = [x - l - h for x, l, h in zip(I, lo, hi)]
            z = [0] * (len(i) - nd); j = i[:len(i) - nd] + q; a, _ = self.secret(j); v = self.op(f"arith.constant {self.lit(0)} : {self.e}"); ix = ", ".join(f"%q{x}{self.n}: index" for x in range(len(i)))
            a = self.op(f"tensor.pad {a} low{z + lo} high{z + hi} {{\n  ^bb0({ix}):\n    tensor.yield {v} : {self.e}\n  }} : {self.T(j)} to {self.T(i)}")
        else: a, _ = self.secret(i)
        at = "" if "_nc" not in kind else f" {{dilations = dense<1> : vector<{nd}xi64>, strides = dense<{st}> : vector<{nd}xi64>}}"
        self.op(f"linalg.{kind}{at} ins({a}, {self.cst(k)} : {self.T(i)}, {self.T(k)}) outs({self.init(o)} : {self.T(o)}) -> {self.T(o)}", o)
    def k_collapse(self):
        r = self.r; a, s = self.secret(rank=r.choice([2, 3])); i = r.randrange(len(s) - 1)
        g = [[j] for j in range(i)] + [[i, i + 1]] + [[j] for j in range(i + 2, len(s))]; o = s[:i] + [s[i] * s[i + 1]] + s[i + 2:]
        self.op(f"tensor.collapse_shape {a} {g} : {self.T(s)} into {self.T(o)}", o)
    def k_expand(self):
        r = self.r; a, s = self.secret(rank=r.choice([1, 2])); i = r.randrange(len(s))
        d = r.choice([x for x in range(1, s[i] + 1) if s[i] % x == 0]); o = s[:i] + [d, s[i] // d] + s[i + 1:]
        g = [[j] for j in range(i)] + [[i, i + 1]] + [[j + 1] for j in range(i + 1, len(s))]
        self.op(f"tensor.expand_shape {a} {g} output_shape {o} : {self.T(s)} into {self.T(o)}", o)
    def idx(self, s): return ", ".join(self.op(f"arith.constant {self.r.randrange(x)} : index") for x in s)
    def k_extract(self):
        a, s = self.secret(rank=self.r.choice([1, 2])); self.op(f"tensor.extract {a}[{self.idx(s)}] : {self.T(s)}", [])
    def k_insert(self):
        a, s = self.secret(rank=self.r.choice([1, 2])); v, _ = self.secret([])
        self.op(f"tensor.insert {v} into {a}[{self.idx(s)}] : {self.T(s)}", s)
    def slice(self, s):
        r = self.r; off, sz, st = [], [], []
        for n in s:
            q = r.choice([1, 1, 1, 2]) if n > 1 else 1; o = r.randrange(n); k = r.randrange(1, (n - o - 1) // q + 2); off.append(o); sz.append(k); st.append(q)
        return off, sz, st
    def k_extract_slice(self):
        r = self.r; a, s = self.secret(rank=r.choice([1, 2, 3])); o, z, t = self.slice(s); d = list(z)
        if len(s) > 1 and 1 in z and r.random() < .5: d.remove(1)
        self.op(f"tensor.extract_slice {a}{o} {z} {t} : {self.T(s)} to {self.T(d)}", d)
    def k_insert_slice(self):
        r = self.r; a, s = self.secret(rank=r.choice([1, 2])); o, z, t = self.slice(s); d = list(z)
        if len(s) > 1 and 1 in z and r.random() < .5: d.remove(1)
        v, _ = self.secret(d); self.op(f"tensor.insert_slice {v} into {a}{o} {z} {t} : {self.T(d)} into {self.T(s)}", s)
    def k_pad(self):
        r = self.r; a, s = self.secret(rank=r.choice([1, 2])); lo = [r.randrange(2) for _ in s]; hi = [r.randrange(3) for _ in s]; o = [l + n + h for l, n, h in zip(lo, s, hi)]
        z = self.op(f"arith.constant {self.lit(0)} : {self.e}"); ix = ", ".join(f"%q{i}{self.n}: index" for i in range(len(s)))
        x = self.op(f"tensor.pad {a} low{lo} high{hi} {{\n  ^bb0({ix}):\n    tensor.yield {z} : {self.e}\n  }} : {self.T(s)} to {self.T(o)}")
        # An elementwise operation on it is a known finding: only its value, or what it is convolved with
        self.only.append((x, o, True))
    def k_scalar(self):
        r = self.r; a, _ = self.secret([]); b = self.cst([]) if r.random() < .4 else self.secret([])[0]; self.bin(r.choice(["add", "sub", "mul"]), a, b, [])
    def k_loop(self):
        """elementwise work written as a loop of extracts and inserts"""
        r = self.r; n = r.choice([2, 4, 4, 8]); a, s = self.secret([n]); b = self.secret([n])[0] if r.random() < .7 else self.cst([n])
        x = self.fresh(); i, c, p, q, w = self.fresh("i"), self.fresh(), self.fresh(), self.fresh(), self.fresh()
        o = r.choice(["add", "sub", "mul"]) + ("f" if self.fl else "i"); t = self.T(s); k = r.randrange(3)
        ix = self.fresh("j")
        if k == 0: init, ity = self.plain_or(s), t       # elementwise
        else: init, ity = self.op(f"arith.constant {self.lit(self.num())} : {self.e}"), self.e
        sh = r.choice([0, 0, 1, n - 1])
        self.out.append(f"{x} = affine.for {i} = 0 to {n} iter_args({c} = {init}) -> ({ity}) {{")
        self.out.append(f"  {ix} = affine.apply affine_map<(d0) -> ((d0 + {sh}) mod {n})>({i})")
        self.out.append(f"  {p} = tensor.extract {a}[{i}] : {t}"); self.out.append(f"  {q} = tensor.extract {b}[{ix}] : {t}"); self.out.append(f"  {w} = arith.{o} {p}, {q} : {self.e}")
        y = self.fresh()
        if k == 0: self.out.append(f"  {y} = tensor.insert {w} into {c}[{i}] : {t}")
        else: self.out.append(f"  {y} = arith.{'add' if k == 1 else 'mul'}{'f' if self.fl else 'i'} {c}, {w} : {self.e}")
        self.out.append(f"  affine.yield {y} : {ity}\n  }}"); self.V.append((x, s if k == 0 else [], True))
    def plain_or(self, s): return self.cst(s) if self.r.random() < .5 else self.secret(s)[0]
    KINDS = ["elem", "elem", "matvec", "vecmat", "matmul", "bmm", "reduce", "conv", "collapse", "expand", "extract", "insert", "extract_slice", "insert_slice", "pad", "scalar", "loop", "dot", "rank0"]
    def build(self, kinds=None, n=None):
        r = self.r; ks = []
        for _ in range(n or r.choice([1, 2, 2, 3, 4])):
            k = r.choice(kinds or self.KINDS); ks.append(k); getattr(self, "k_" + k)()
        self.kinds = ks
        res = [v for v in self.V if v[2] and not v[0].startswith("%a")]
        if not res and self.only: res = self.only
        if not res or not any(a[2] for a in self.args): self.k_elem(); res = [v for v in self.V if v[2] and not v[0].startswith("%a")]
        rs = [res[-1]] + ([(r.choice(self.R0), None, True)] if self.R0 and r.random() < .6 else []) + ([r.choice(res[:-1])] if len(res) > 1 and r.random() < .25 else []) + [v for v in self.only[:1] if v is not res[-1]]
        body = "\n".join("  " + l for l in self.out)
        ar = ", ".join(f"{x}: {t}" + (" {secret.secret}" if s else "") for x, t, s in self.args)
        ts = ", ".join(self.T(v[1]) if v[1] is not None else f"tensor<{self.e}>" for v in rs)
        return f"func.func @main({ar}) -> ({ts}) {{\n{body}\n  return {', '.join(v[0] for v in rs)} : {ts}\n}}"

# What the pipeline refuses (or stops at an assertion) is not judged, except for these
STRICT = {"elem", "matvec", "collapse", "extract", "extract_slice", "pad", "scalar", "loop", "dot", "rank0"}

CONST = ("unrealized conversion cast", "requires attribute 'value'")   # the result folds to a constant

def end_to_end(m, N):
    """encrypt every secret argument, run, decrypt every result"""
    fs = N.module(m)
    if "main" not in fs: raise norm.Unsupported("no main")
    f = fs["main"]; na, nr = len(f["t"]), len(f["rt"])
    ops, ins, reg = [], [], na
    for i in range(na):
        g = f"main__encrypt__arg{i}"
        if g not in fs: g = f"main__packed_plaintext__arg{i}"
        if g in fs: reg += 1; ops.append(dict(o="call", fn=g, i=[i + 1], u=[reg])); ins.append(reg)
        else: ins.append(i + 1)
    outs = list(range(reg + 1, reg + nr + 1)); reg += nr
    ops.append(dict(o="call", fn="main", i=ins, u=outs))
    res = []
    for k in range(nr):
        g = f"main__decrypt__result{k}"
        if g in fs: reg += 1; ops.append(dict(o="call", fn=g, i=[outs[k]], u=[reg])); res.append(reg)
        else: res.append(outs[k])
    ops.append(dict(o="yield", i=res, u=[]))
    return dict(fs={**{k: {x: v[x] for x in ("args", "ops", "n")} for k, v in fs.items()}, "end to end": dict(args=list(range(1, na + 1)), ops=ops, n=reg)}, main="end to end")

def judge(c, label, pipe, progs, ninputs):
    r = c.rng
    mods = [t for t, _ in progs]
    res = c.opt(mods, [pipe], attrs=["backend.openfhe"] * len(mods))
    recs = []
    for (text, kinds), x in zip(progs, res):
        key = label + ":" + hashlib.sha256(text.encode()).hexdigest()[:10]
        rp = dict(text=text, pipeline=pipe, attrs="backend.openfhe")
        if x.get("crash"):
            c.count("aborted"); continue  # loud: no program comes out
        if x["after"] is None:
            if x["before"] is None: c.count("generator_rejected"); c.notes.setdefault("rejected_sample", (x["err"] or "")[:300]); continue
            if not set(kinds) <= STRICT or any(t in (x["err"] or "") for t in CONST): c.count("refused"); continue
            c.fail(key, dict(rp, err=x["err"]), f"{label} fails on a valid program"); continue
        try:
            p, types = programs.program(x["before"], "main", norm.Norm())
            q = end_to_end(x["after"], norm.Norm())
            ins = programs.inputs(r, types, ninputs)
        except norm.Unsupported as e:
            c.count("unsupported"); d = c.notes.setdefault("unsupported_ops", {}); d[str(e)[:60]] = d.get(str(e)[:60], 0) + 1; continue
        recs.append(dict(rp, key=key, progs=[p, q], inputs=ins))
        for k in kinds: c.count("with_" + k)
    c.count("programs", len(recs)); c.count("n_" + label, len(recs))
    return recs

PINNED = [("pad-then-add", """func.func @main(%a0: tensor<2xi16> {secret.secret}) -> tensor<4xi16> {
  %z = arith.constant 0 : i16
  %w = arith.constant dense<[1, 2, 3, 4]> : tensor<4xi16>
  %v = tensor.pad %a0 low[1] high[1] {
  ^bb0(%i: index):
    tensor.yield %z : i16
  } : tensor<2xi16> to tensor<4xi16>
  %r = arith.addi %v, %w : tensor<4xi16>
  return %r : tensor<4xi16>
}""")]
VARIANTS = ["", " experimental-disable-loop-unroll=true", " codegen-strategy=fold-when-possible", " codegen-strategy=never-fold", " enable-split-preprocessing=false"]

def run(c):
    r = c.rng
    recs = []
    for k, t in PINNED: recs += judge(c, k, "--mlir-to-secret-arithmetic=min-slot-count=16", [(t, [])], 2)
    n = c.scale(45, 250)
    for v in VARIANTS:
        for slots, e in [(16, "f32"), (64, "i16"), (16, "i16"), (64, "f32")][:4 if not v else 2]:
            ps = []
            for _ in range(n): p = Prog(r, e); t = p.build(); ps += [(t, p.kinds)] * ("secret.secret" in t)
            recs += judge(c, f"secret-arithmetic-{slots}-{e}{v.replace(' ', '-')}", f"--mlir-to-secret-arithmetic=min-slot-count={slots}{v}", ps, c.scale(2, 4))
    for i in range(0, len(recs), 300):
        c.check("Programs", recs[i:i + 300], label=f"end-to-end-{i // 300}", what="the program on packed ciphertexts computes something else")
