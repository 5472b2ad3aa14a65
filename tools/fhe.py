"""Operations on ciphertexts as instructions of HeirMachine.tla: the scheme dialects, OpenFHE and Lattigo."""
import re
from norm import Unsupported, shape

def kind(t):
    s = t.get("s", "") if t["k"] == "other" else ""
    for a, b in (("_ciphertext<", "c"), (".ciphertext", "c"), ("_plaintext<", "p"), (".plaintext", "p"), ("digit_decomp", "g"), ("crypto_context", "x")):
        if a in s: return b
    return "?"

def level(t):
    """(primes dropped of those in the modulus chain, components) according to the type"""
    s = t["s"]
    m = re.search(r"modulus_chain = <elements = <(.*?)>, current = (\d+)>", s)
    if not m: raise Unsupported("ciphertext without a modulus chain")
    n = re.search(r"encryption_type = \w+, size = (\d+)>", s)
    return m.group(1).count(":") - 1 - int(m.group(2)), int(n.group(1)) if n else 2

def ct(N, o, i, u, f, args, d=None, at=0, cx=0, shift=None, by=1, rl=False, typed=False, sc=0):
    q, n = level(o["t"][0]) if typed else (-1, 0)
    k = ["c" if kind(o["it"][j]) in "cg" else "p" for j in args]
    si, sh = (shift[1], 0) if shift and shift[0] == "r" else (0, shift[1] if shift else 0)
    return dict(o="ct", f=f, i=[i[j] for j in args], u=u, k=k, d=N.ctd, at=at, cx=cx, si=si, sh=sh, by=by, rl=rl, q=q, n=n, sc=sc)

def amount(o, i, pos):
    a = o["a"].get("static_shift")
    if a is not None: return ("c", a)
    if len(i) > pos: return ("r", i[pos])
    raise Unsupported("rotation without amount")

# ---- scheme dialects
def scheme(f, **kw):
    def h(N, o, i, u, B):
        if shape(o["t"][0]) is not None: raise Unsupported("elementwise on tensors of ciphertexts")
        args = list(range(len(i)))
        if f in ("rot",): return ct(N, o, i, u, f, [0], shift=amount(o, i, 1), typed=True)
        if f == "drop" and "level_reduce" in o["op"]: return ct(N, o, i, u, f, [0], by=o["a"].get("levelToDrop", 1), typed=True)
        return ct(N, o, i, u, f, args, typed=True, **kw)
    return h

def encrypt(N, o, i, u, B):
    q, n = level(o["t"][0])
    return dict(o="enc", i=[i[0]], u=u, l=q)

HOOKS = {}
for d in ("bgv", "ckks"):
    for k, f in dict(add="add", add_plain="add", sub="sub", sub_plain="sub", mul="mul", mul_plain="mul", negate="neg", relinearize="relin",
                     modulus_switch="drop", rescale="drop", level_reduce="drop", rotate="rot", rotate_cols="rot").items():
        HOOKS[f"{d}.{k}"] = scheme(f)
for k, f in dict(radd="add", radd_plain="add", rsub="sub", rsub_plain="sub", rmul="mul", rmul_plain="mul", rnegate="neg").items():
    HOOKS["lwe." + k] = scheme(f)
HOOKS["lwe.rlwe_encode"] = lambda N, o, i, u, B: dict(o="id", i=i[:1], u=u)
HOOKS["lwe.rlwe_decode"] = HOOKS["lwe.rlwe_encode"]
HOOKS["lwe.rlwe_encrypt"] = encrypt
HOOKS["lwe.rlwe_decrypt"] = lambda N, o, i, u, B: dict(o="dec", i=i[:1], u=u)

# ---- storage for plaintexts encoded ahead of time
P = "preprocessing."
HOOKS[P + "empty"] = lambda N, o, i, u, B: dict(o="pnew", i=[], u=u)
HOOKS[P + "store"] = lambda N, o, i, u, B: dict(o="pput", i=i, u=[], site=o["a"]["site_id"])
HOOKS[P + "load"] = lambda N, o, i, u, B: dict(o="pget", i=i, u=u, site=o["a"]["site_id"])

# ---- OpenFHE
def openfhe(f, **kw):
    def h(N, o, i, u, B):
        return ct(N, o, i, u, f, list(range(1, len(i))), at=1 if o["op"].endswith("_inplace") else 0, cx=i[0], **kw)
    return h
def o_plain(f):
    """the plaintext may be either operand, the ciphertext is the one mutated"""
    def h(N, o, i, u, B):
        at = 0
        if o["op"].endswith("_inplace"): at = 1 if kind(o["it"][1]) == "c" else 2
        return ct(N, o, i, u, f, [1, 2], at=at, cx=i[0])
    return h
O = "openfhe."
for s in ("", "_inplace"):
    for k, f in dict(add="add", sub="sub", negate="neg", relin="relin", mod_reduce="drop", mul_no_relin="mul").items(): HOOKS[O + k + s] = openfhe(f)
    for k, f in dict(add_plain="add", sub_plain="sub", mul_plain="mul").items(): HOOKS[O + k + s] = o_plain(f)
    HOOKS[O + "mul" + s] = openfhe("mul", rl=True)
    HOOKS[O + "square" + s] = openfhe("square", rl=True)
    HOOKS[O + "level_reduce" + s] = lambda N, o, i, u, B: ct(N, o, i, u, "drop", [1], at=1 if o["op"].endswith("_inplace") else 0, cx=i[0], by=o["a"]["levelToDrop"])
    HOOKS[O + "mul_const" + s] = lambda N, o, i, u, B: ct(N, o, i, u, "mul", [1, 2], at=1 if o["op"].endswith("_inplace") else 0, cx=i[0], sc=1)
HOOKS[O + "rot"] = lambda N, o, i, u, B: ct(N, o, i, u, "rot", [1], cx=i[0], shift=amount(o, i, 2))
HOOKS[O + "fast_rotation_precompute"] = lambda N, o, i, u, B: ct(N, o, i, u, "copy", [1], cx=i[0])
HOOKS[O + "fast_rotation"] = lambda N, o, i, u, B: ct(N, o, i, u, "fastrot", [1, 3], cx=i[0], shift=("r", i[2]))
for k in ("make_packed_plaintext", "make_ckks_packed_plaintext"): HOOKS[O + k] = lambda N, o, i, u, B: dict(o="id", i=i[1:2], u=u)
for k in ("decode", "decode_ckks"): HOOKS[O + k] = lambda N, o, i, u, B: dict(o="id", i=i[:1], u=u)
HOOKS[O + "encrypt"] = lambda N, o, i, u, B: dict(o="enc", i=[i[1]], u=u, l=0)
HOOKS[O + "decrypt"] = lambda N, o, i, u, B: dict(o="dec", i=[i[1]], u=u)
def params(N, o, i, u, B):
    return dict(o="const", i=[], u=u, v=o["a"]["mulDepth"])
HOOKS[O + "gen_params"] = params
HOOKS[O + "gen_context"] = lambda N, o, i, u, B: dict(o="ctx", i=i[:1], u=u)
HOOKS[O + "gen_mulkey"] = lambda N, o, i, u, B: dict(o="mulkey", i=i[:1], u=[])
HOOKS[O + "gen_rotkey"] = lambda N, o, i, u, B: dict(o="rotkey", i=i[:1], u=[], ks=o["a"]["indices"])
