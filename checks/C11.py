"""Noise models: histories of homomorphic operations, values decided by Noise.tla."""
from math import log2
from big import limbs, is_prime
MODELS = ["worst", "average", "variance", "canemb"]
def flt_inv(q):
    """1/q as limbs (checked by ParamOk)"""
    k = (q.bit_length() + 60) // 12 + 1
    return dict(m=limbs((1 << (12 * k)) // q)[-5:], e=-k + max(0, len(limbs((1 << (12 * k)) // q)) - 5))
def prime_near(rng, bits, n):
    x = (1 << bits) + rng.randrange(0, 1 << max(1, bits - 3))
    x -= x % (2 * n); x += 1
    while not is_prime(x): x += 2 * n
    return x
def param(rng):
    lg = rng.choice([2, 3, 4, 5] + list(range(8, 18)) * 2)
    n = 1 << lg
    L = rng.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 8, 12])
    bits = rng.choice([20, 25, 31, 45, 55, 60])
    t = rng.choice([2, 3, 17, 257, 65537, 65537, 4295294977, 1032193, (1 << 34) + 1, (1 << 45) + 7, (1 << 58) + 3])
    exact = rng.random() < .4
    qs = [1 << (bits + rng.randrange(0, 3)) if exact else prime_near(rng, min(bits + rng.randrange(0, 4), 60), n) for _ in range(L + 1)]
    dnum = rng.choice([1, 1, 2, 3]) if L else 1
    k = -(-(L + 1) // dnum)
    if rng.random() < .3: k = rng.randint(1, 5)
    ps = [1 << rng.randint(20, 60) if exact else prime_near(rng, rng.choice([bits, min(bits + 2, 60), 60]), n) for _ in range(k)]
    return dict(n=n, t=t, qs=qs, ps=ps, dnum=dnum, level=L, pk=rng.random() < .6, ext=rng.random() < .3, known=rng.random() < .5)
def history(rng, sch, p, ln):
    steps, lv, nz = [], [], []
    def add(**s): steps.append(s)
    L = p["level"]
    for i in range(ln):
        k = rng.random()
        if i < 2 or k < .12:
            add(op="enc", lvl=rng.choice([L, L, L, rng.randint(0, L)]) if sch == "bgv" else L, a=1, b=1); continue
        a, b = rng.randint(max(1, i - 3), i), rng.randint(1, i)
        la = steps[a - 1]["nl"] if "nl" in steps[a - 1] else steps[a - 1]["lvl"]
        if k < .2: add(op="const", lvl=la, a=1, b=1)
        elif k < .4: add(op="add", lvl=la, a=a, b=b)
        elif k < .62: add(op="mul", lvl=la, a=a, b=b)
        elif k < .77: add(op="relin", lvl=la, a=a, b=1)
        elif k < .9: add(op="modred", lvl=la, a=a, b=1, **({"nl": max(0, la - 1)} if sch == "bgv" else {}))
        elif k < .96: add(op="join", lvl=la, a=a, b=b)
        else: add(op="keep", lvl=la, a=a, b=1)
    return [{k: v for k, v in s.items() if k != "nl"} for s in steps]
def run(c):
    c.build("hnoise")
    rng, cmds = c.rng, []
    for i in range(c.scale(900, 9000)):
        sch = ("bgv", "bfv")[i % 2]
        m = MODELS[(i // 2) % 4]
        p = param(rng)
        cmds.append(dict(c="noise", sch=sch, m=m, n=p["n"], t=str(p["t"]), qi=[str(q) for q in p["qs"]], pi=[str(q) for q in p["ps"]], dnum=p["dnum"],
                         pk=int(p["pk"]), ext=int(p["ext"]), known=int(p["known"]), steps=history(rng, sch, p, rng.randint(3, 12)), p=0) | {"_p": p})
    send = [{k: v for k, v in x.items() if k not in ("_p", "p")} for x in cmds]
    out = c.drive("hnoise", send)
    recs = []
    for x, o in zip(cmds, out):
        p = x["_p"]
        key = f"{x['sch']}/{x['m']}/n{p['n']}/t{p['t']}/L{p['level']}/{'pk' if p['pk'] else 'sk'}{'x' if p['ext'] else ''}/" + "-".join(s["op"] for s in x["steps"])
        if "crash" in o: c.fail(key, x, "the model crashed: " + o["crash"][:200]); continue
        for e in o["out"]:       # no noise at all: an unlimited budget
            if e["bound"]["m"] == [] and e["budget"]["m"] == "inf": e["budget"] = dict(m=[], e=0)
        if any(v["m"] in ("nan", "inf") for e in o["out"] for v in (e["v"], e["bound"], e["total"], e["budget"])):
            c.fail(key, dict(cmd=x, out=o), "a noise value is not a number"); continue
        c.count(f"histories_{x['sch']}_{x['m']}")
        pm = max(range(len(p["ps"])), key=lambda i: p["ps"][i]) + 1
        recs.append(dict(key=key, sch=x["sch"], m=x["m"], steps=x["steps"], out=o["out"],
            p=dict(n=p["n"], t=limbs(p["t"]), qs=[limbs(q) for q in p["qs"]], qinv=[flt_inv(q) for q in p["qs"]], ps=[limbs(q) for q in p["ps"]],
                   pinv=[flt_inv(q) for q in p["ps"]], pmax=pm, dnum=p["dnum"], level=p["level"], pk=p["pk"], ext=p["ext"])))
    c.check("Noise", recs, what="noise state, bound, total or budget is not the one the growth formulas give")
if __name__ == "__main__":
    import hv
    hv.main("C11", run)
