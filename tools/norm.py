"""Turns modules recorded by `--dump-json` into programs of HeirMachine.tla.

The translation only renames: one machine instruction per operation, with the
numeric domain of its elements and the shapes of its operands spelled out.  An
operation without a meaning in the specification raises Unsupported."""
import json

class Unsupported(Exception):
    pass

DYN = -2**63
CMP = ["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]
CMPF = {0: None, 1: "eq", 2: "sgt", 3: "sge", 4: "slt", 5: "sle", 6: "ne", 8: "eq", 9: "sgt", 10: "sge", 11: "slt", 12: "sle", 13: "ne"}
BIN = dict(addi="add", subi="sub", muli="mul", divsi="divs", divui="divu", remsi="rems", remui="remu", floordivsi="fdivs",
           ceildivsi="cdivs", ceildivui="cdivu", andi="and", ori="or", xori="xor", shli="shl", shrsi="shrs", shrui="shru",
           minsi="mins", maxsi="maxs", minui="minu", maxui="maxu",
           addf="add", subf="sub", mulf="mul", divf="divf", minimumf="mins", maximumf="maxs", minnumf="mins", maxnumf="maxs")
UN = dict(extsi="exts", extui="extu", trunci="trunc", negf="neg", sitofp="tofp", uitofp="utofp", extf="id", truncf="id",
          fptosi="trunc", fptoui="trunc", index_cast="trunc", index_castui="extu", bitcast="id")

def inner(t):
    while t["k"] == "secret": t = t["e"]
    return t

def shape(t):
    t = inner(t)
    if t["k"] == "poly": return [pdeg(t)]
    return t["sh"] if t["k"] in ("tensor", "vector", "memref") else None

def elem(t):
    t = inner(t)
    return elem(t["e"]) if t["k"] in ("tensor", "vector", "memref") else t

def prod(l):
    r = 1
    for x in l: r *= x
    return r

def pdeg(t):
    if "m" not in t: raise Unsupported("polynomial without modulus")
    return max(e for _, e in t["m"])

def nlimbs(t):
    """number of residues per element if they are residue number systems"""
    t = inner(t)
    while t["k"] in ("tensor", "vector", "memref"): t = t["e"]
    if t["k"] == "poly": t = t["c"]
    return len(t["b"]) if t["k"] == "rns" else None

def used(o):
    yield from o["in"]
    for g in o["r"]:
        for b in g:
            for x in b["ops"]: yield from used(x)

class Norm:
    def __init__(self, floats="field", fscale=1, hooks=None, ints="machine"):
        self.ints = ints              # "exact": integers do not wrap around
        self.ctd = -1 if ints == "machine" else 0
        self.floats, self.fscale, self.hooks = floats, fscale, hooks or {}

    def dom(self, t):
        e = elem(t)
        if e["k"] == "int": return e["w"] if e["w"] <= 16 and (self.ints == "machine" or e["w"] == 1) else 0
        if e["k"] == "index": return 0
        if e["k"] == "float": return -1 if self.floats == "field" else 0
        if e["k"] == "mod":
            q = e["q"]
            if not isinstance(q, int) or q > 46000: raise Unsupported("modulus")
            return q + 100
        raise Unsupported("type " + json.dumps(t))

    def limbs(self, e):
        return [self.dom(b) for b in e["b"]]

    def dd(self, t):
        """domain argument of an arithmetic instruction: one modulus or one per limb"""
        e = elem(t)
        if e["k"] == "poly": e = e["c"]
        return dict(ds=self.limbs(e)) if e["k"] == "rns" else dict(d=self.dom(e))

    def zero(self, t):
        e = elem(t)
        if e["k"] == "poly": e = e["c"]
        return [0] * len(e["b"]) if e["k"] == "rns" else 0

    def num(self, v, t):
        e = elem(t)
        if isinstance(v, dict):
            if "f" in v:
                from fractions import Fraction
                s = v["f"]
                if s in ("Inf", "-Inf", "NaN", "+Inf"): raise Unsupported("float const " + s)
                x = Fraction(s)
                if self.floats == "field":
                    return x.numerator * pow(x.denominator, -1, 32749) % 32749
                x *= self.fscale
                if x.denominator != 1: raise Unsupported("fractional constant")
                v = int(x)
            elif "big" in v: v = int(v["big"])
            else: raise Unsupported("const")
        if not isinstance(v, int): raise Unsupported("const")
        if e["k"] == "mod": return v % e["q"]
        if e["k"] == "int" and e["w"] == 1: return v & 1
        if abs(v) >= 2**30: raise Unsupported("wide constant")
        return v

    def const(self, v, t):
        sh = shape(t)
        if isinstance(v, dict) and "dense" in v:
            l = [self.num(x, t) for x in v["dense"]]
            if sh is None: return l[0]
            n = prod(sh)
            if len(l) == n: return l
            if len(l) == 1: return l * n
            raise Unsupported("dense")
        if isinstance(v, list): return [self.num(x, t) for x in v]
        x = self.num(v, t)
        return x if sh is None else [x] * prod(sh)

    def module(self, m):
        self.globals = {}
        self.funcs = {}
        ops = m["r"][0][0]["ops"]
        for o in ops:
            if o["op"] == "memref.global":
                self.globals[o["a"]["sym_name"]] = o
        res = {}
        for o in ops:
            if o["op"] == "func.func":
                f = self.func(o)
                if f: res[o["a"]["sym_name"]] = f
            elif o["op"] in ("memref.global",): pass
            else: pass
        return res

    def func(self, o):
        if not o["r"] or not o["r"][0]: return None
        if len(o["r"][0]) != 1: raise Unsupported("cfg")
        self.reg = {}
        b = self.block(o["r"][0][0])
        return dict(args=b["args"], ops=b["ops"], n=max(1, len(self.reg)), t=o["r"][0][0]["t"], rt=o["r"][0][0]["ops"][-1]["it"])

    def rg(self, v):
        return self.reg.setdefault(v, len(self.reg) + 1)

    def block(self, b):
        args = [self.rg(v) for v in b["args"]]
        ops = []
        for o in b["ops"]:
            x = self.op(o)
            if x is None: continue
            if isinstance(x, list): ops += x
            else: ops.append(x)
        return dict(args=args, ops=ops)

    def regions(self, o):
        r = []
        for g in o["r"]:
            if len(g) > 1: raise Unsupported("cfg region")
            if g: r.append(self.block(g[0]))
        return r

    def forall(self, o, i, u):
        """one iteration after the other; each puts its slices into the shared results (which it may not read)"""
        a = o["a"]; b = o["r"][0][0]
        if a["operandSegmentSizes"][:3] != [0, 0, 0] or len(a["staticLowerBound"]) != 1: raise Unsupported("dynamic forall")
        par = b["ops"][-1]["r"][0][0]["ops"]; shared = list(b["args"][1:])
        reads = {v for x in b["ops"][:-1] for v in used(x)}
        if any(v in shared for v in reads): raise Unsupported("forall that reads its results")
        cur = {v: v for v in shared}; ops = list(b["ops"][:-1])
        for x in par:
            if x["op"] != "tensor.parallel_insert_slice": raise Unsupported(x["op"])
            d = x["in"][1]; w = ("forall", o["out"][0], len(ops)); k = dict(x, op="tensor.insert_slice", out=[w], t=[x["it"][1]])
            k["in"] = [x["in"][0], cur[d]] + x["in"][2:]; cur[d] = w; ops.append(k)
        last = {"op": "scf.yield", "a": {}, "in": [cur[v] for v in shared], "out": [], "it": [], "t": [], "r": []}
        cs = []
        for v in (a["staticLowerBound"][0], a["staticUpperBound"][0], a["staticStep"][0]):
            w = self.rg(("forall", o["out"][0], "b", len(cs))); cs.append(dict(o="const", i=[], u=[w], v=v))
        return cs + [dict(o="for", i=[x["u"][0] for x in cs] + i, u=u, r=[self.block(dict(b, ops=ops + [last]))])]

    def op(self, o):
        name = o["op"]; a = o["a"]
        i = [self.rg(v) for v in o["in"]]
        u = [self.rg(v) for v in o["out"]]
        it, t = o["it"], o["t"]
        B = lambda kind, **kw: dict(o=kind, i=i, u=u, **kw)
        if name in self.hooks:
            return self.hooks[name](self, o, i, u, B)
        d, _, s = name.partition(".")
        sc = bool(t) and shape(t[0]) is None
        if d == "arith":
            if s == "constant": return B("const", v=self.const(a["value"], t[0]))
            if s in BIN:
                k = BIN[s]
                dm = self.dom(t[0])
                if k == "divf" and dm != -1: raise Unsupported("divf")
                if dm == -1 and k in ("mins", "maxs"): raise Unsupported("order on the field")
                return B("bin", f=k, d=dm, sc=sc)
            if s in UN:
                k = UN[s]
                if s == "fptosi" and self.dom(it[0]) == -1: raise Unsupported("fptosi")
                return B("un", f=k, d=self.dom(t[0]), di=self.dom(it[0]), sc=sc)
            if s == "cmpi": return B("cmp", f=CMP[a["predicate"]], d=self.dom(it[0]), sc=sc)
            if s == "cmpf":
                if self.dom(it[0]) == -1: raise Unsupported("cmpf")
                k = CMPF.get(a["predicate"])
                if k is None: raise Unsupported("cmpf")
                return B("cmp", f=k, d=0, sc=sc)
            if s == "select": return B("select", csc=shape(it[0]) is None)
        if d == "math":
            if s in ("absi", "absf"): return B("un", f="abs", d=self.dom(t[0]), di=self.dom(it[0]), sc=sc)
        if name in ("func.return", "affine.yield", "scf.yield", "linalg.yield", "secret.yield", "tensor.yield", "scf.condition", "polynomial.yield"):
            return dict(o="yield", i=i)
        if name == "func.call": return B("call", fn=a["callee"])
        if name == "affine.apply": return B("apply", map=a["map"])
        if name == "affine.min": return B("amin", map=a["map"])
        if name == "affine.max": return B("amax", map=a["map"])
        if name == "affine.for":
            nl, nu, ni = a["operandSegmentSizes"]
            return dict(o="afor", li=i[:nl], ui=i[nl:nl + nu], i=i[nl + nu:], u=u, lb=a["lowerBoundMap"], ub=a["upperBoundMap"],
                        step=a["step"], r=self.regions(o))
        if name == "affine.if": return B("aif", set=a["condition"], r=self.regions(o))
        if name == "scf.forall": return self.forall(o, i, u)
        if name == "scf.for": return B("for", r=self.regions(o))
        if name == "scf.if": return B("if", r=self.regions(o))
        if name == "scf.while": return B("while", r=self.regions(o))
        if name in ("affine.load", "affine.store", "memref.load", "memref.store"):
            ld = s == "load"
            mt = it[0] if ld else it[1]
            n = len(i) - (1 if ld else 2)
            mp = a["map"] if d == "affine" else dict(nd=n, ns=0, res=[["d", k] for k in range(n)])
            if -1 in shape(mt): raise Unsupported("dynamic memref")
            return B("load" if ld else "store", map=mp, sh=shape(mt))
        if name in ("memref.alloc", "memref.alloca"): return B("alloc", n=prod(shape(t[0])))
        if name == "memref.dealloc": return None
        if name == "memref.get_global":
            g = self.globals[a["name"]]
            v = g["a"].get("initial_value")
            if not isinstance(v, dict): raise Unsupported("uninitialised global")
            return B("global", v=self.const(v, t[0]))
        if name == "memref.copy": return B("copy")
        if name in ("bufferization.to_tensor",): return B("totensor")
        if name in ("bufferization.to_memref", "bufferization.to_buffer"): return B("tomem")
        if name == "cf.assert": return B("assert")
        if d == "tensor":
            if s == "empty": return B("const", v=[self.zero(t[0])] * prod(self.st(t[0])))
            if s == "splat": return B("splat", n=prod(self.st(t[0])))
            if s == "from_elements": return B("pack")
            if s in ("cast", "collapse_shape", "expand_shape", "reshape"):
                self.st(t[0]); return dict(o="id", i=i[:1], u=u)
            if s == "extract": return B("extract", sh=self.st(it[0]))
            if s == "insert": return B("insert", sh=self.st(it[1]))
            if s in ("extract_slice", "insert_slice"):
                k = lambda x: [-999999 if v in (DYN, {"big": str(DYN)}) else v for v in x]
                big = it[0] if s == "extract_slice" else it[1]
                return B("xslice" if s == "extract_slice" else "islice", sh=self.st(big), off=k(a["static_offsets"]),
                         siz=k(a["static_sizes"]), str=k(a["static_strides"]))
            if s == "concat": return B("concat", shs=[self.st(x) for x in it], so=self.st(t[0]), dim=a["dim"])
            if s == "pad":
                if any(v in (DYN, {"big": str(DYN)}) for v in a["static_low"]): raise Unsupported("dynamic pad")
                return B("pad", sh=self.st(it[0]), so=self.st(t[0]), low=a["static_low"], r=self.regions(o))
            if s == "generate": return B("generate", so=self.st(t[0]), r=self.regions(o))
            if s == "dim":
                raise Unsupported(name)
        if d == "linalg":
            if s == "index": return dict(o="index", k=a["dim"], u=u)
            if s == "transpose": return dict(o="transpose", i=i[:1], u=u, sh=self.st(it[0]), so=self.st(t[0]), perm=a["permutation"])
            if s == "broadcast": return dict(o="broadcast", i=i[:1], u=u, sh=self.st(it[0]), so=self.st(t[0]), dims=a["dimensions"])
            if s == "fill" and t: return dict(o="fill", i=i[:1], u=u, n=prod(self.st(t[0])))
            if "dump_maps" in a and t:
                nin = len(i) - len(u)
                return B("generic", nin=nin, dom=a["dump_ranges"], maps=a["dump_maps"],
                         shs=[[-1] if shape(x) is None else self.st(x) for x in it], r=self.regions(o))
        if d == "secret":
            if s == "generic": return B("region", r=self.regions(o))
            if s in ("conceal", "reveal", "cast"): return B("id")
            if s == "separator": return None
        if d == "mgmt" and len(i) == 1 and len(u) == 1: return B("id")
        if name in ("debug.validate",): return None
        if name == "tensor_ext.rotate":
            sh = self.st(it[0])
            return B("rot", n=sh[-1])
        if name == "tensor_ext.rotate_and_reduce":
            f = BIN[(a.get("reduceOp") or "arith.addi").split(".")[1]]
            return B("rotred", n=self.st(it[0])[-1], f=f, d=self.dom(t[0]), per=a["period"], steps=a["steps"])
        if d == "mod_arith":
            dd = self.dd(it[0]) if it else None
            R = lambda k, **kw: B(k + ("r" if "ds" in dd else ""), **kw, **dd)
            if s == "constant": return B("const", v=self.const(a["value"], t[0]))
            if s in ("add", "sub", "mul"): return R("bin", f=s, sc=sc)
            if s == "mac": return R("mac", sc=sc)
            if s == "reduce": return dict(o="binr", i=[i[0], i[0]], u=u, f="fst", sc=sc, ds=dd["ds"]) if "ds" in dd else \
                                     B("un", f="trunc", d=dd["d"], di=0, sc=sc)
            if s == "encapsulate":
                k = nlimbs(t[0])
                return B("id") if k is None or shape(t[0]) is None else B("group", n=k)
            if s == "lift":
                f = a["lift_type"]; f = "centered" if "centered" in str(f) or f == 1 else "standard"
                k = nlimbs(it[0])
                if k is None: return B("lift", f=f, sc=sc, d=dd["d"])
                if shape(it[0]) is None: return B("liftr", f=f, sc=True, ds=dd["ds"])
                x = self.rg(("t", len(self.reg)))
                return [dict(o="liftr", i=i, u=[x], f=f, sc=False, ds=dd["ds"]), dict(o="flat", i=[x], u=u, n=k)]
            if s == "mod_switch":
                a1, b1 = nlimbs(it[0]), nlimbs(t[0])
                if a1 is None and b1 is None: return B("modsw", sc=sc, d=self.dom(t[0]), di=self.dom(it[0]))
                if a1 is None: return B("decomp", sc=sc, ds=self.limbs(elem(t[0])))
                if b1 is None: return B("interp", sc=sc, qs=[x - 100 for x in dd["ds"]])
            if s == "barrett_reduce":
                q = a["modulus"]; w = (q - 1).bit_length()
                if 3 * w > 29: raise Unsupported("barrett width")
                return B("barrett", sc=sc, d=self.dom(t[0]), q=q, w=w)
            if s == "subifge": return B("subifge", sc=sc, d=self.dom(t[0]))
        if d == "rns":
            if s == "pack": return B("pack")
            if s == "extract_residue": return B("limb", k=a["index"], sc=shape(it[0]) is None)
            if s == "extract_slice": return B("limbs", k=a["start"], n=a["size"], sc=shape(it[0]) is None)
            if s == "constant": return B("const", v=[x % e["q"] for x, e in zip(a["value"], elem(t[0])["b"])])
            if s == "convert_basis":
                return B("cvtbasis", qs=[x - 100 for x in self.limbs(it[0])], ps=[x - 100 for x in self.limbs(t[0])])
        if d == "polynomial":
            pt = inner(t[0]) if t else None
            if pt and pt["k"] != "poly" and s not in ("to_tensor", "leading_term"): raise Unsupported("containers of polynomials")
            if s in ("add", "sub") or (s == "mul" and pt["form"] == "eval"):
                dd = self.dd(pt["c"])
                return B("binr" if "ds" in dd else "bin", f=s, sc=False, **dd)
            nz = dict(nz=self.zero(inner(it[0])["c"])) if self.hooks.get("nzpoly") and s in ("mul", "leading_term") else {}
            if s == "mul": return B("pmul", m=pt["m"], n=pdeg(pt), **nz, **self.dd(pt["c"]))
            if s == "mul_scalar": return B("psc", **self.dd(pt["c"]))
            if s == "monomial": return B("pmono", n=pdeg(pt), z=self.zero(pt))
            if s == "monic_monomial_mul":
                if sorted(map(tuple, pt["m"])) != [(-1, 0), (1, pdeg(pt))]: raise Unsupported("monomial product in this ring")
                return B("pshift")
            if s == "leading_term": return B("plead", **nz, z=self.zero(it[0]))
            if s == "from_tensor": return B("ppad", n=pdeg(pt), z=self.zero(pt))
            if s == "to_tensor": return B("id")
            if s == "mod_switch":
                return self.op(dict(op="mod_arith.mod_switch", a={}, r=[], out=o["out"], t=[dict(k="tensor", sh=[pdeg(pt)], e=pt["c"])],
                                    **{"in": o["in"]}, it=[dict(k="tensor", sh=[pdeg(pt)], e=inner(it[0])["c"])]))
            if s == "constant":
                c = [0] * pdeg(pt); n = len(c)
                if "limbs" in a["value"]:
                    l = a["value"]["limbs"]["dense"]; bs = pt["c"]["b"]
                    if len(l) == 1: l = l * (n * len(bs))
                    return B("const", v=[[l[k * n + x] % b["q"] for k, b in enumerate(bs)] for x in range(n)])
                for co, ex in a["value"]["poly"]:
                    if isinstance(co, dict): co = int(co["big"])
                    if ex >= len(c): raise Unsupported("constant of the degree of the modulus")
                    c[ex] = co
                e = pt["c"]
                if e["k"] == "rns": return B("const", v=[[x % b["q"] for b in e["b"]] for x in c])
                if e["k"] == "mod": return B("const", v=[x % e["q"] for x in c])
                w = e["w"]
                return B("const", v=[(x + 2**(w - 1)) % 2**w - 2**(w - 1) for x in c])
            if s in ("ntt", "intt"):
                if "root" not in a: raise Unsupported("no root")
                return B("ntt", f=s, n=pdeg(pt), w=a["root"], **self.dd(pt["c"]))
            if s == "apply_coefficientwise": return B("papply", r=self.regions(o))
            if s == "extract_slice": return B("limbs", k=a["start"], n=a["size"], sc=False)
            if s == "yield": return dict(o="yield", i=i)
        raise Unsupported(name)

    def st(self, t):
        sh = shape(t)
        if sh is None or -1 in sh: raise Unsupported("dynamic shape")
        return sh

def load(path):
    return [json.loads(l) for l in open(path) if l.strip()]
