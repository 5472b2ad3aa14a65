"""C17: a program lowered to a scheme and to a library computes the same, with the keys it generates."""
import sys, os, hashlib
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/tools", os.path.dirname(os.path.abspath(__file__))]
import hv, norm, programs, fhe
from concurrent.futures import ThreadPoolExecutor
from C01 import Prog
LEVEL = "translation_validation"

def end_to_end(m, N, lib):
    """make a context and keys, encrypt every secret argument, run, decrypt every result"""
    fs = N.module(m)
    if "main" not in fs: raise norm.Unsupported("no main")
    f = fs["main"]; x = 1 if lib else 0
    na, nr = len(f["t"]) - x, len(f["rt"])
    ops, ins, reg = [], [], na
    key = reg = reg + 1; ops.append(dict(o="const", i=[], u=[key], v=0))
    cx = []
    if lib:
        for g, i in (("main__generate_crypto_context", []), ("main__configure_crypto_context", [reg + 1, key])):
            if g not in fs: raise norm.Unsupported("no " + g)
            reg += 1; ops.append(dict(o="call", fn=g, i=i, u=[reg]))
        cx = [reg]
    for i in range(na):
        g = f"main__encrypt__arg{i}"
        if g in fs: reg += 1; ops.append(dict(o="call", fn=g, i=cx + [i + 1, key], u=[reg])); ins.append(reg); continue
        g = f"main__packed_plaintext__arg{i}"
        if g in fs: reg += 1; ops.append(dict(o="call", fn=g, i=cx + [i + 1], u=[reg])); ins.append(reg)
        else: ins.append(i + 1)
    outs = list(range(reg + 1, reg + nr + 1)); reg += nr
    ops.append(dict(o="call", fn="main", i=cx + ins, u=outs))
    res = []
    for k in range(nr):
        g = f"main__decrypt__result{k}"
        if g in fs: reg += 1; ops.append(dict(o="call", fn=g, i=cx + [outs[k], key], u=[reg])); res.append(reg)
        else: res.append(outs[k])
    ops.append(dict(o="yield", i=res, u=[]))
    return dict(fs={**{k: {x: v[x] for x in ("args", "ops", "n")} for k, v in fs.items()}, "end to end": dict(args=list(range(1, na + 1)), ops=ops, n=reg)}, main="end to end")

def judge(c, label, pipe, progs, ninputs, e, res):
    recs = []
    for (text, kinds), x in zip(progs, res):
        key = label + ":" + hashlib.sha256(text.encode()).hexdigest()[:10]
        rp = dict(text=text, pipeline=" ".join(pipe).replace("@dump", ""), attrs="backend.openfhe")
        if x.get("crash"): c.count("aborted"); d = c.notes.setdefault("crashes", {}); d[x["crash"][:150]] = d.get(x["crash"][:150], 0) + 1; continue
        if x["after"] is None:
            if x["before"] is None: c.count("generator_rejected"); continue
            c.count("refused"); k = (x["err"] or "").split("error:")[-1][:90].strip(); d = c.notes.setdefault("refusals", {}); d[k] = d.get(k, 0) + 1; continue
        exact = "exact" if e[0] == "i" else "machine"
        mk = lambda: norm.Norm(ints=exact, hooks=fhe.HOOKS)
        try:
            p, types = programs.program(x["before"], "main", mk())
            q = [end_to_end(x["mid"], mk(), False), end_to_end(x["after"], mk(), True)]
            ins = programs.inputs(c.rng, types, ninputs, gen=small if e[0] == "i" else None)
        except norm.Unsupported as ex:
            c.count("unsupported"); d = c.notes.setdefault("unsupported_ops", {}); d[str(ex)[:60]] = d.get(str(ex)[:60], 0) + 1; continue
        recs.append(dict(rp, key=key, progs=[p] + q, inputs=ins))
        t = str(q)
        for n in ("rot", "fastrot", "relin", "drop", "mul", "rotkey", "pput"): c.count("with_" + n, "'f': '%s'" % n in t or "'o': '%s'" % n in t)
    c.count("programs", len(recs)); c.count("n_" + label, len(recs))
    return recs

def small(r, t, k):
    sh = norm.shape(t); one = lambda: r.randrange(-2, 4)
    if norm.elem(t)["k"] != "int": return None
    return one() if sh is None else [one() for _ in range(norm.prod(sh))]

KINDS = ["elem", "elem", "elem", "matvec", "matvec", "matmul", "reduce", "dot", "extract", "extract_slice", "insert_slice", "scalar", "loop", "collapse", "conv"]

def square(r, e):
    """a matrix as wide as a ciphertext: rotations by baby and giant steps, fast ones among them"""
    n, m = 8, r.choice([1, 1, 2]); z = "0.0" if e[0] == "f" else "0"
    b = ""; x = "%a0"
    for k in range(m):
        rows = ", ".join("[" + ", ".join(str(r.randrange(-2, 4)) + (".0" if e[0] == "f" else "") for _ in range(n)) + "]" for _ in range(n))
        b += f"""  %w{k} = arith.constant dense<[{rows}]> : tensor<{n}x{n}x{e}>
  %z{k} = arith.constant dense<{z}> : tensor<{n}x{e}>
  %y{k} = linalg.matvec ins(%w{k}, {x} : tensor<{n}x{n}x{e}>, tensor<{n}x{e}>) outs(%z{k} : tensor<{n}x{e}>) -> tensor<{n}x{e}>
"""
        x = f"%y{k}"
        if r.random() < .5: b += f"  %s{k} = arith.{'mulf' if e[0] == 'f' else 'muli'} {x}, {r.choice([x, '%a0'])} : tensor<{n}x{e}>\n"; x = f"%s{k}"
    return f"func.func @main(%a0: tensor<{n}x{e}> {{secret.secret}}) -> (tensor<{n}x{e}>) {{\n{b}  return {x} : tensor<{n}x{e}>\n}}\n"

def run(c):
    r = c.rng; recs, jobs = [], []
    n = c.scale(16, 150)
    lib = " experimental-disable-loop-unroll=true"
    for scheme, e, slots, vs in [("bgv", "i16", 16, ["", lib, " greedy-modulus-switch-before-first-mul=true", " greedy-modulus-switch-after-mul=true"]), ("ckks", "f32", 16, ["", lib]),
                                 ("bfv", "i16", 8, ["", lib]), ("ckks", "f32", 8, ["", " enable-split-preprocessing=false", lib, " greedy-modulus-switch-after-mul=true"]), ("bgv", "i16", 8, [" use-public-key=false", " enable-split-preprocessing=false"])]:
        for v in vs:
            ps = []
            for _ in range(n if not v else n // 2):
                p = Prog(r, e); t = p.build(KINDS); ps += [(t, p.kinds)] * ("secret.secret" in t)
            jobs.append((f"{scheme}-{slots}{v.replace(' ', '-')}", [f"--mlir-to-{scheme}=min-slot-count={slots}{v}", "@dump", "--scheme-to-openfhe"], ps, 2, e))
    for scheme, e in (("bgv", "i16"), ("ckks", "f32")):
        jobs.append((f"{scheme}-8-square", [f"--mlir-to-{scheme}=min-slot-count=8", "@dump", "--scheme-to-openfhe"], [(square(r, e), ["matvec"]) for _ in range(c.scale(3, 20))], 2, e))
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: c.opt([t for t, _ in j[2]], j[1], attrs=["backend.openfhe"] * len(j[2]), batch=6, timeout=40, single=12), jobs))
    for j, x in zip(jobs, res): recs += judge(c, *j, x)
    for i in range(0, len(recs), 150):
        c.check("Programs", recs[i:i + 150], label=f"library-{i // 150}", what="the program on the encryption library computes something else, or lacks keys")
if __name__ == "__main__": hv.main("C17", run, LEVEL)
