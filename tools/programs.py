"""Source program against transformed program, decided by Programs.tla."""
import hashlib, itertools
import norm
from norm import Unsupported, elem, shape, inner, prod

def value(rng, t, small=False):
    e = elem(t); sh = shape(t)
    def one():
        if e["k"] == "int":
            if e["w"] == 1: return rng.randrange(2)
            w = min(e["w"], 8)
            return rng.choice([0, 1, -1, 2, rng.randrange(-2**(w - 1), 2**(w - 1)), rng.randrange(-9, 10)])
        if e["k"] == "index": return rng.randrange(2)
        if e["k"] == "float": return rng.choice([0, 1, rng.randrange(0, 9), rng.randrange(0, 9)])
        if e["k"] == "mod": return rng.choice([0, 1, e["q"] // 2, e["q"] - 1, rng.randrange(e["q"]), rng.randrange(e["q"])]) % e["q"]
        raise Unsupported("input type")
    res = lambda e: [rng.choice([0, 1, b["q"] - 1, rng.randrange(b["q"]), rng.randrange(b["q"])]) for b in e["b"]]
    if sh is None: return res(e) if e["k"] == "rns" else one()
    if -1 in sh: raise Unsupported("dynamic argument")
    if e["k"] == "poly": e = e["c"]; sh = sh if inner(t)["k"] == "poly" else sh + [norm.pdeg(elem(t))]
    if e["k"] == "rns": return [v for _ in range(prod(sh)) for v in res(e)]
    return [one() for _ in range(prod(sh))]

def inputs(rng, types, n, gen=None):
    res = []
    for k in range(n):
        args, heap = [], []
        ni = 0
        for t in types:
            v = gen(rng, t, k) if gen else None
            if v is None and inner(t)["k"] == "index":     # all small combinations: unknown indices may coincide
                v = (k >> ni) & 1; ni += 1
            if v is None: v = value(rng, t)
            if inner(t)["k"] == "memref":
                heap.append(v); args.append(len(heap))
            else: args.append(v)
        res.append(dict(args=args, heap=heap))
    return res

def flatten(f):
    """Residues at the interface of a program are laid out flat, as their lowering does."""
    pre = []
    for n, t in enumerate(f["t"]):
        k = norm.nlimbs(t)
        if k and shape(t) is not None: pre.append(dict(o="group", i=[f["args"][n]], u=[f["args"][n]], n=k))
    y = f["ops"].pop()
    post, i = [], list(y["i"])
    for n, t in enumerate(f["rt"]):
        k = norm.nlimbs(t)
        if k and shape(t) is not None:
            f["n"] += 1
            post.append(dict(o="flat", i=[i[n]], u=[f["n"]], n=k)); i[n] = f["n"]
    f["ops"] = pre + f["ops"] + post + [dict(y, i=i)]

def program(m, main, N, adapt=None):
    fs = N.module(m)
    if main not in fs: raise Unsupported("no function " + main)
    if adapt: adapt(m, fs[main], N)
    flatten(fs[main])
    return dict(fs={k: {x: f[x] for x in ("args", "ops", "n")} for k, f in fs.items()}, main=main), fs[main]["t"]

def compare(c, label, pipe, mods, rng, ninputs=4, main="main", floats="field", hooks=None, gen=None, accept_refusal=False,
            after_main=None, same_types=True, spec="Programs", extra=None, make_inputs=None, what=None, adapt=None, attrs=None):
    """Run pipe over mods, keep source and result, let TLC compare them."""
    res = c.opt(mods, pipe.split() if isinstance(pipe, str) else pipe, attrs=attrs)
    recs = []
    for text, x in zip(mods, res):
        key = label + ":" + hashlib.sha256(text.encode()).hexdigest()[:10]
        if x.get("crash"):
            c.fail(key, dict(text=text, pipeline=pipe, crash=x["crash"]), f"{label} does not terminate normally")
            continue
        if x["after"] is None:
            if x["before"] is None:
                c.count("generator_rejected"); c.notes.setdefault("rejected_sample", (x["err"] or "")[:300])
                continue
            if accept_refusal is True or (callable(accept_refusal) and accept_refusal(text, x["err"])):
                c.count("refused"); continue
            c.fail(key, dict(text=text, pipeline=pipe, err=x["err"]), f"{label} fails on a valid program")
            continue
        N = norm.Norm(floats=floats, hooks=hooks)
        try:
            p, types = program(x["before"], main, N, adapt and getattr(adapt, "source", None))
            q, types2 = program(x["after"], after_main or main, norm.Norm(floats=floats, hooks=hooks), adapt and (lambda m, f, N: adapt(m, f, N, x["before"])))
            ins = (make_inputs or inputs)(rng, types, ninputs, gen)
        except Unsupported as e:
            c.count("unsupported"); d = c.notes.setdefault("unsupported_ops", {}); d[str(e)[:60]] = d.get(str(e)[:60], 0) + 1
            continue
        recs.append(dict(key=key, text=text, pipeline=pipe, progs=[p, q], inputs=ins, **(extra or {})))
        if q["fs"] != p["fs"]: c.count("changed_" + label)
    c.count("programs", len(recs)); c.count("n_" + label, len(recs))
    c.check(spec, recs, label=label + f"-{len(recs)}", what=what or f"{label} changes what the program computes")
    return recs
