import itertools
from big import *
def bitrev(x, b): return int(format(x, f"0{b}b")[::-1], 2) if b else 0
def roots(q, n):
    """every primitive 2n-th root (n a power of two) modulo the prime q"""
    if q % (2 * n) != 1: return []
    g = 2
    while pow(pow(g, (q - 1) // (2 * n), q), n, q) != q - 1: g += 1
    w = pow(g, (q - 1) // (2 * n), q)
    return [pow(w, 2 * k + 1, q) for k in range(n)]
def ntt(v, q, w):
    n = len(v); b = n.bit_length() - 1
    if n == 1: return v
    return [sum(v[j] * pow(w, (2 * bitrev(i, b) + 1) * j, q) for j in range(n)) % q for i in range(n)]
def table(q, w, n):
    t, x = [dict(r=limbs(1), q=[])], 1
    for _ in range(2 * n - 1):
        t.append(dict(q=limbs(x * w // q), r=limbs(x * w % q))); x = x * w % q
    return t
def quots(v, q, w):
    n = len(v); b = n.bit_length() - 1
    if n == 1: return [limbs(0)]
    return [limbs(sum(v[j] * pow(w, (2 * bitrev(i, b) + 1) * j, q) for j in range(n)) // q) for i in range(n)]
def prime_for(rng, bits, n):
    while True:
        q = ((rng.getrandbits(bits) | 1 << (bits - 1)) // (2 * n)) * 2 * n + 1
        if q.bit_length() == bits and is_prime(q): return q
def run(c):
    c.build("hpoly")
    rng, cmds, mk = c.rng, [], []
    def add(cmd, f): cmds.append(cmd); mk.append(f)
    # ---- the ring of polynomials
    def poly(lim=9, deg=7, zero=.1):
        return [[0 if rng.random() < zero else rng.randint(-lim, lim), e] for e in sorted(rng.sample(range(deg + 1), min(deg + 1, rng.randint(0, 5))))]
    for i in range(c.scale(500, 6000)):
        p, q = poly(), poly(5, rng.choice([1, 2, 4]))
        if i % 11 == 0 or i % 13 == 0: p = poly(3, 4)
        if i % 11 == 0: q = [list(t) for t in p]
        if i % 13 == 0: q = [[-a, e] for a, e in p]
        if i % 17 == 0: q = [[rng.randint(-3, 3), 0], [rng.choice([1, 2, -1]), 1]]
        k, s, coef = rng.randint(0, 6), rng.randint(-4, 4), [rng.choice([0, 0, 1, -3, 7]) for _ in range(rng.randint(0, 6))]
        mono = [[rng.randint(-5, 5), rng.randint(0, 8)] for _ in range(rng.randint(0, 4))]
        d = dict(t="int" if i % 3 else "float", p=p, q=q, k=k, s=s, coef=coef, mono=mono)
        add(dict(d, c=d["t"]), lambda x, d=d, i=i: dict(d, **x, key=f"ring/{i}"))
    # ---- transforms, small moduli
    def tr(q, n, w, v):
        add(dict(c="rt", q=str(q), w=str(w), v=list(v)),
            lambda x: dict(t="ntt", key=f"ntt/{q}/{n}/{w}/{list(v)}", q=q, w=w, v=list(v), r=[int(y) for y in x["mid"]], back=[int(y) for y in x["r"]]))
    for n in (1, 2, 4, 8, 16, 32):
        for q in [p for p in range(3, c.scale(200, 400)) if is_prime(p) and p % (2 * n) == 1]:
            ws = roots(q, n)
            for w in ws[:c.scale(2, 8)]:
                if q ** n <= c.scale(300, 5000):
                    for v in itertools.product(range(q), repeat=n): tr(q, n, w, v)
                else:
                    if n <= 8 or not c.quick:
                        for j in range(n): tr(q, n, w, [int(i == j) for i in range(n)])
                    tr(q, n, w, [q - 1] * n)
                    for _ in range(c.scale(1, 5)): tr(q, n, w, [rng.randrange(q) for _ in range(n)])
    for b in range(0, 8):
        for n in range(1 << b): add(dict(c="rev", n=n, b=b), lambda x, n=n, b=b: dict(t="rev", key=f"rev/{n}/{b}", n=n, b=b, r=x["r"]))
    # ---- transforms, word-size moduli
    def bigntt(q, n, w, v):
        def f(x):
            return dict(t="bigntt", key=f"bigntt/{q}/{n}/{w}/{v}", q=limbs(q), w=limbs(w), v=[limbs(y) for y in v], tab=table(q, w, n), quot=quots(v, q, w),
                        r=[limbs(int(y)) for y in x["mid"]], back=[limbs(int(y)) for y in x["r"]])
        add(dict(c="rt", q=str(q), w=str(w), v=[str(y) for y in v]), f)
    for i in range(c.scale(25, 300)):
        n = rng.choice([2, 4, 8, 8]); bits = rng.choice([32, 33, 50, 61, 62, 63, 64, 64])
        q = prime_for(rng, bits, n); w = rng.choice(roots(q, n))
        k = rng.random()
        v = [q - 1] * n if k < .2 else [rng.choice([0, q - 1]) for _ in range(n)] if k < .4 else [rng.randrange(q) for _ in range(n)]
        bigntt(q, n, w, v)
    # ---- residue number systems
    for i in range(c.scale(60, 900)):
        n = rng.choice([1, 2, 4, 4, 8, 3, 6]) if i % 2 else rng.choice([2, 4])
        L = rng.randint(1, 3)
        np2 = n if n & (n - 1) == 0 else 4
        m = []
        for _ in range(L):
            bits = rng.choice([8, 14, 30, 45, 60, 62, 63, 64])
            if rng.random() < .15:
                while True:
                    q = rng.getrandbits(14) | 1 << 13 | 1
                    if is_prime(q): break
            else: q = prime_for(rng, bits, np2)
            m.append(q)
        pick = lambda q: rng.choice([0, 1, q - 1, q - 2, q // 2 + 1]) if rng.random() < .5 else rng.randrange(q)
        a = [pick(q) for q in m for _ in range(n)]
        b = list(a) if i % 9 == 0 else [pick(q) for q in m for _ in range(n)]
        s = [rng.choice([0, 1, q - 1, rng.randrange(q), rng.getrandbits(64)]) for q in m]
        fr = rng.randrange(L); size = rng.randint(1, L - fr)
        def f(x, a=a, b=b, m=m, s=s, n=n, L=L, fr=fr, size=size, i=i):
            x = dict(x)
            for k, y in x.items():
                if isinstance(y, dict):
                    y["r"] = [limbs(int(z)) for z in y["r"]]
                    if "m" in y: y["m"] = [limbs(int(z)) for z in y["m"]]
            x["el"] = [limbs(int(z)) for z in x["el"]]
            p2 = n & (n - 1) == 0
            rootable = [int(p2 and q % (2 * n) == 1) for q in m]
            r = dict(x, t="rns", key=f"rns/{i}/{m}/{n}", n=n, m=[limbs(q) for q in m], a=[limbs(y) for y in a], b=[limbs(y) for y in b],
                     s=[limbs(y) for y in s], rootable=rootable, size=size, w=[], mw=[],
                     sq=[limbs(a[k] * (s[k // n] % m[k // n]) // m[k // n]) for k in range(n * L)])
            r["from"] = fr
            r["s"] = [limbs(y % q) for y, q in zip(s, m)]
            if all(rootable) and x["ntt"]["ok"] and x["mul"]["ok"]:
                for l, q in enumerate(m):
                    av, bv = a[l * n:l * n + n], b[l * n:l * n + n]
                    got = x["ntt"]["r"][l * n:l * n + n]
                    ws = roots(q, n)
                    w = next((w for w in ws if [limbs(y) for y in ntt(av, q, w)] == got), ws[0])
                    r["w"].append(dict(w=limbs(w), tab=table(q, w, n), quot=quots(av, q, w)))
                    for k in range(n):
                        d = sum(av[j] * bv[k - j] for j in range(k + 1)) - sum(av[j] * bv[n + k - j] for j in range(k + 1, n))
                        t = d // q
                        r["mw"].append([limbs(max(0, -t)), limbs(max(0, t))])
            return r
        add(dict(c="rns", a=[str(y) for y in a], b=[str(y) for y in b], m=[str(y) for y in m], s=[str(y) for y in s], size=size, **{"from": fr}), f)
    recs = [dict(t="x", key=str(k)[:200], **a) if "crash" in a else f(a) for k, f, a in zip(cmds, mk, c.drive("hpoly", cmds))]
    for r in recs: c.count("n_" + r["t"])
    c.sample(recs[5]); c.sample({k: recs[-1].get(k) for k in ("key", "a", "add")})
    c.check("Poly", recs, what="polynomial arithmetic is wrong")
