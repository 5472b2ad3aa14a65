import itertools
from math import gcd
from big import *
def run(c):
    c.build("hmath")
    rng, cmds, mk = c.rng, [], []
    def add(cmd, f): cmds.append(cmd); mk.append(f)
    I = int
    def w_for(m, extra=0): return max(m.bit_length() + extra, 2)
    # ---- modular inverse, products, powers: small moduli completely, in tight and wide words
    for m in list(range(1, c.scale(60, 130))) + [127, 128, 251, 255, 256]:
        for a in range(0, m):
            w = w_for(m, (a + m) % 3)
            add(dict(c="inv", w=w, a=str(a), m=str(m)), lambda x, a=a, m=m, w=w: dict(t="inv", key=f"inv/{a}/{m}/{w}", a=a, m=m, r=I(x["r"])))
    def rnd(w):
        k = rng.random()
        if k < .2: return (1 << w) - 1 - rng.randrange(0, 4)
        if k < .3: return (1 << (w - 1)) + rng.randrange(0, 3)
        return rng.getrandbits(w) | (1 << (w - 1)) if k < .7 else max(2, rng.getrandbits(rng.randint(2, w)))
    for i in range(c.scale(250, 4000)):
        w = rng.choice([16, 31, 32, 33, 61, 63, 64, 64, 65, 96, 128])
        m = max(3, rnd(w)); a, b = rng.randrange(m), rng.randrange(m)
        if rng.random() < .2: a = m - 1
        if rng.random() < .2: b = m - 1
        def finv(x, a=a, m=m, w=w):
            r = I(x["r"]); g = gcd(a, m)
            return dict(t="invbig", key=f"inv/{a}/{m}/{w}", a=limbs(a), m=limbs(m), r=limbs(r), coprime=int(g == 1), q=limbs(a * r // m),
                        g=limbs(g), ag=limbs(a // g), mg=limbs(m // g))
        add(dict(c="inv", w=w, a=str(a), m=str(m)), finv)
        def fmul(x, a=a, b=b, m=m, w=w):
            r = I(x["r"])
            return dict(t="mulmod", key=f"mulmod/{a}/{b}/{m}/{w}", a=limbs(a), b=limbs(b), m=limbs(m), q=limbs(a * b // m), r=limbs(r))
        add(dict(c="mulmod", w=w, a=str(a), b=str(b), m=str(m)), fmul)
        e = rng.getrandbits(rng.choice([1, 3, 8, 17])) if i % 4 else rng.getrandbits(min(w, 48))
        e &= (1 << w) - 1
        base = a if rng.random() < .8 else min(a + m, (1 << w) - 1)
        def fpow(x, a=base, e=e, m=m, w=w):
            p, _ = poww(a % m, e, m)
            return dict(t="powbig", key=f"pow/{a}/{e}/{m}/{w}", a=limbs(a), e=limbs(e), m=limbs(m), qa=limbs(a // m), p=p, r=limbs(I(x["r"])))
        add(dict(c="pow", w=w, a=str(base), b=str(e), m=str(m)), fpow)
    for m in range(2, 30):
        for a in range(0, m + 3):
            for e in range(0, 12):
                w = max(w_for(m + 3), 4)
                if (a + e + m) % c.scale(5, 1) == 0:
                    add(dict(c="pow", w=w, a=str(a), b=str(e), m=str(m)), lambda x, a=a, e=e, m=m: dict(t="powsmall", key=f"pow/{a}/{e}/{m}", a=a, b=e, m=m, r=I(x["r"])))
    # ---- primality and factors: small numbers completely
    small = c.scale(1500, 20000)
    prim = [dict(c="prime", w=[17, 20, 32, 64][n % 4], a=str(n)) for n in range(small)]
    fac = [dict(c="factor", w=[17, 20, 32, 64][n % 4], a=str(n)) for n in range(small)]
    pa, fa = c.drive("hmath", prim), c.drive("hmath", fac)
    recs = []
    for lo in range(0, small, 100):
        for t, ans in (("primes", pa), ("factors", fa)):
            bad = [x for x in ans[lo:lo + 100] if "crash" in x]
            if bad: recs.append(dict(t=t, key=f"{t}/{lo}", **bad[0])); continue
            recs.append(dict(t=t, key=f"{t}/{lo}", lo=lo, r=[[I(y) for y in x["r"]] if t == "factors" else x["r"] for x in ans[lo:lo + 100]]))
    # strong pseudoprimes to many small bases, Carmichael numbers, squares of primes, primes next to word limits
    hard = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
            318665857834031151167461, 561, 1105, 1729, 2465, 825265, 321197185, 5394826801, 232250619601, 4759123141,
            (1 << 61) - 1, (1 << 31) - 1, (1 << 64) - 59, (1 << 63) - 25, (1 << 64) - 57, (1 << 32) - 5, 4294967291 * 4294967279,
            4294967291 ** 2, 65537 ** 2, 251 ** 2, 67 * 71, 71 * 71, 73 * 73, 61 * 71, 4294967311, 18446744073709551557,
            (1 << 64) + 13, 2 ** 127 - 1]
    for i in range(c.scale(40, 600)):
        w = rng.choice([20, 31, 32, 40, 48, 63, 64])
        n = rng.getrandbits(w) | 1
        if i % 2:
            while not is_prime(n): n += 2
        elif i % 4 == 0:
            p = rng.getrandbits(w // 2) | 1
            while not is_prime(p): p += 2
            n = p * p if i % 8 == 0 else p * (2 * p - 1)
        hard.append(n)
    # Chernick's Carmichael numbers without small factors: every base is a Fermat liar
    ch = [(6 * k + 1) * (12 * k + 1) * (18 * k + 1) for k in range(12, 40000)
          if k % 10 in (0, 1, 5, 6) and is_prime(6 * k + 1) and is_prime(12 * k + 1) and is_prime(18 * k + 1)]
    hard += ch[:12] + rng.sample(ch, min(len(ch), c.scale(25, 200)))
    for n in hard:
        def fp(x, n=n):
            r = dict(t="primebig", key=f"prime/{n}", n=limbs(n), r=x["r"])
            if is_prime(n): return dict(r, **{"is": 1, "pr": pratt(n)})
            f = factor(n)[0]
            return dict(r, **{"is": 0, "f": limbs(f), "g": limbs(n // f)})
        add(dict(c="prime", w=max(n.bit_length(), 8), a=str(n)), fp)
        add(dict(c="prime", w=max(n.bit_length(), 8) + 7, a=str(n)), fp)
    nf = [n for n in hard if len(set(factor(n))) and max([f for f in factor(n)][:-1] or [1]) < 2 ** 22 and n < 2 ** 45]
    nf += [2 ** 40, 3 ** 20, 2 ** 20 * 3 ** 10, 6 * 1000003, 2 ** 66, 3 * 2 ** 65, (1 << 64) + 2 ** 20, 1000003 * 1000033]
    for n in nf:
        def ff(x, n=n):
            fs = sorted(factor(n))
            return dict(t="factorbig", key=f"factor/{n}", n=limbs(n), fs=[limbs(p) for p in fs], prs=[pratt(p) for p in sorted(set(fs))], r=[limbs(I(y)) for y in x["r"]])
        if sorted(factor(n))[-2 if len(factor(n)) > 1 else -1] < 2 ** 22 and (is_prime(n) is False or n < 2 ** 42):
            add(dict(c="factor", w=n.bit_length() + rng.randint(0, 5), a=str(n)), ff)
    # ---- primitive roots
    for q in range(0, c.scale(260, 1200)):
        add(dict(c="root", w=12, m=str(q)), lambda x, q=q: dict(t="root", key=f"root/{q}", m=q, r=-1 if x["r"] == "none" else I(x["r"])))
    for q in [p for p in range(2, c.scale(800, 4000)) if is_prime(p)] + list(range(2, 100)):
        for n in (1, 2, 4, 8, 3, 16, 32, 6):
            if q % (2 * n) == 1 or (q + n) % 7 == 0:
                add(dict(c="root2n", w=16, m=str(q), n=n), lambda x, q=q, n=n: dict(t="root2n", key=f"root2n/{q}/{n}", m=q, n=n, r=-1 if x["r"] == "none" else I(x["r"])))
    bigq = []
    for bits, n in itertools.product((30, 40, 50, 60), (8, 1024, 32768)):
        q = (1 << bits) + 1
        q += (-(q - 1)) % (2 * n)
        while not (is_prime(q) and max(factor(q - 1)[:]) < 2 ** 40): q += 2 * n
        bigq.append((q, n))
    for q, n in bigq[:: c.scale(2, 1)]:
        if sorted(factor(q - 1))[-1] > 2 ** 44: continue
        def fr(x, q=q, n=n):
            r = I(x["r"]); p, _ = poww(r, n, q)
            return dict(t="rootbig", key=f"root2n/{q}/{n}", m=limbs(q), n=limbs(n), r=limbs(r), p=p)
        add(dict(c="root2n", w=64, m=str(q), n=n), fr)
    # ---- powers of two
    for a in list(range(1, 70)) + [rng.getrandbits(rng.randint(1, 63)) + 1 for _ in range(60)] + [1 << k for k in range(64)] + [(1 << k) + 1 for k in range(63)] + [(1 << k) - 1 for k in range(1, 64)]:
        if a <= 1 << 63: add(dict(c="npow2", a=str(a)), lambda x, a=a: dict(t="npow2", key=f"npow2/{a}", a=limbs(a), r=limbs(I(x["r"]))))
        if a < 1 << 63:
            for s in (1, -1): add(dict(c="ispow2", a=str(s * a)), lambda x, a=a, s=s: dict(t="ispow2", key=f"ispow2/{s * a}", a=limbs(a), neg=int(s < 0), r=x["r"]))
    for a in (0, -(1 << 63)): add(dict(c="ispow2", a=str(a)), lambda x, a=a: dict(t="ispow2", key=f"ispow2/{a}", a=limbs(-a), neg=int(a < 0), r=x["r"]))
    # ---- rounding between float formats
    F = dict(half=(11, -24, 16), bf16=(8, -133, 128), f32=(24, -149, 128), f64=(53, -1074, 1024))
    for i in range(c.scale(400, 6000)):
        t = rng.choice(["half", "bf16", "f32", "f64"])
        p, emin, emax = F[t]
        m = rng.getrandbits(rng.randint(1, 29))
        if rng.random() < .5 and p < 26:      # near ties
            m = (rng.getrandbits(p) | 1 << (p - 1)) << 3 | rng.choice([3, 4, 5])
        e = rng.randint(emin - 6, emax - 20) if rng.random() < .5 else rng.randint(-30, 3)
        e = max(-1000, min(e, 900))
        if rng.random() < .5: m = -m
        add(dict(c="fconv", m=m, e=e, to=t), lambda x, m=m, e=e, t=t, F=(p, emin, emax): dict(x, t="fconv", key=f"fconv/{m}/{e}/{t}", m0=m, e0=e, p=F[0], emin=F[1], emax=F[2]))
    # ---- logarithmic arithmetic
    for i in range(c.scale(400, 6000)):
        k = rng.random()
        a, b = rng.randint(0, 30000), rng.randint(0, 30000)
        if rng.random() < .1: a = 0
        if rng.random() < .1: b = 0
        if rng.random() < .15: b = a
        if rng.random() < .1: a = 1
        if rng.random() < .1: b = 1
        ka = kb = 0
        if k < .3: ka = kb = rng.randint(-400, 400)
        elif k < .6: ka, kb = rng.randint(-900, 900), rng.randint(-900, 900)
        add(dict(c="log", a=a, b=b, ka=ka, kb=kb), lambda x, a=a, b=b, ka=ka, kb=kb: dict(x, t="log", key=f"log/{a}/{ka}/{b}/{kb}", a=a, b=b, ka=ka, kb=kb))
    # ---- layout maps, permutations, flat indices
    def shape(rk, lim): 
        return [rng.randint(1, lim) for _ in range(rk)]
    for i in range(c.scale(150, 2000)):
        s, o = shape(rng.randint(1, 4), 5), shape(rng.randint(1, 3), 9)
        add(dict(c="rowmajor", **{"in": s, "out": o}), lambda x, s=s, o=o: dict(x, t="rowmajor", key=f"rowmajor/{s}/{o}", **{"in": s, "out": o}))
    for n in range(0, 5):
        for m in range(n, 5):
            for s in ([1 << n, 1 << m], [1 << m, 1 << m], [3, 1 << m]):
                o = [1 << n, 1 << m]
                add(dict(c="diag", **{"in": s, "out": o}), lambda x, s=s, o=o: dict(x, t="diag", key=f"diag/{s}/{o}", **{"in": s, "out": o}))
    for i in range(c.scale(120, 1500)):
        s = shape(2, 6); o = shape(2, 6)
        n = s[0] * s[1]
        flat = ["+", ["*", ["d", 0], ["c", s[1]]], ["d", 1]]
        good = [["mod", ["fdiv", flat, ["c", o[1]]], ["c", o[0]]], ["mod", flat, ["c", o[1]]]]
        k = rng.random()
        if k < .4: m, ex = good, 1
        elif k < .6: m, ex = [["mod", ["+", ["fdiv", flat, ["c", o[1]]], ["c", 1]], ["c", o[0] + 1]], good[1]], -1
        elif k < .8: m, ex = [good[0], ["mod", ["+", flat, ["c", 1]], ["c", o[1]]]], -1
        else: m, ex = [["d", 1], ["d", 0]], -1
        add(dict(c="islayout", nd=2, map=m, **{"in": s, "out": o}), lambda x, s=s, o=o, m=m, ex=ex: dict(x, t="islayout", key=f"islayout/{s}/{o}/{m}", map=m, expect=ex, **{"in": s, "out": o}))
    for n in range(0, 5):
        for p in itertools.product(range(-1, n + 1), repeat=n):
            if c.quick and rng.random() < .7 and n > 3: continue
            add(dict(c="perm", p=list(p), n=n), lambda x, p=p, n=n: dict(x, t="perm", key=f"perm/{p}", p=list(p), n=n))
    for i in range(60):
        k, n = rng.randint(1, 9), rng.randint(0, 12)
        e = rng.choice([["mod", ["+", ["*", ["d", 0], ["c", k]], ["c", rng.randint(-9, 9)]], ["c", n + 1]], ["fdiv", ["+", ["d", 0], ["c", -k]], ["c", 3]], ["cdiv", ["d", 0], ["c", k]], ["c", k]])
        m, nd = rng.choice([([e], 1), ([e], 1), ([e, e], 1), ([["+", ["d", 0], ["d", 1]]], 2)])
        add(dict(c="map1d", n=n, nd=nd, map=m), lambda x, m=m, n=n, nd=nd: dict(x, t="map1d", key=f"map1d/{m}/{n}", map=m, nd=nd, n=n))
    for i in range(c.scale(200, 2500)):
        sh = shape(rng.randint(1, 4), 7); tot = 1
        for s in sh: tot *= s
        ix = [rng.randrange(s) for s in sh]; n = rng.randrange(tot)
        add(dict(c="flat", sh=sh, ix=ix, i=n), lambda x, sh=sh, ix=ix, n=n: dict(x, t="flat", key=f"flat/{sh}/{ix}/{n}", sh=sh, ix=ix, i=n))
    for rank in range(0, 6):
        for k in range(1 << rank):
            pos = [i for i in range(rank) if k >> i & 1]; rng.shuffle(pos)
            add(dict(c="reassoc", rank=rank, pos=pos), lambda x, rank=rank, pos=pos: dict(x, t="reassoc", key=f"reassoc/{rank}/{k}", rank=rank, pos=pos))
    for k, f, a in zip(cmds, mk, c.drive("hmath", cmds)):
        recs.append(dict(t="x", key=str(k), **a) if "crash" in a else f(a))
    for r in recs: c.count("n_" + r["t"])
    c.sample(recs[40])
    c.check("Arith", recs, what="arithmetic result is wrong")
