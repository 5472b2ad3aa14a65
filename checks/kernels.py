"""Cases for the kernel library (C02) and its rotation analyses (C03)."""
from math import gcd
def p2(n):
    r = 1
    while r < n: r *= 2
    return r
def vec(rng, n, lo=-5, hi=5): return [rng.randint(lo, hi) for _ in range(n)]
def mat(rng, r, c): return [vec(rng, c) for _ in range(r)]

def bicyc(m, slots): return [m[k % len(m)][k % len(m[0])] for k in range(slots)]
def tricyc(t, slots):
    b = [bicyc(x, slots) for x in t]
    return [b[k % len(t)][k] for k in range(slots)]

def kernel_cases(c):
    rng, out = c.rng, []
    def add(name, **k):
        k.setdefault("zero", []); k.setdefault("unroll", True); k.setdefault("mulOp", False); k.setdefault("pt", False)
        k["kernel"], k["c"] = name.split("/")[0], "kernel"
        k["key"] = name
        out.append(k)
    for n in c.scale([1, 2, 3, 4, 7, 8], range(1, 17)):
        add(f"matvec/{n}", slots=n, m=mat(rng, n, n), v=vec(rng, n))
    for n in c.scale([4, 6, 8, 9, 16], [2, 3, 4, 5, 6, 8, 9, 12, 16, 20, 25, 32]):
        for steps in range(1, n + 1):
            pers = [q for q in range(1, n + 1) if q * steps <= n or q in (1, 2, 3)]
            if c.quick: pers = sorted(set([1] + rng.sample(pers, min(2, len(pers)))))
            for per in pers:
                for un in (True, False):
                    w = rng.random()
                    z = rng.sample(range(steps), rng.choice([0, 0, 1, steps // 2, steps])) if w < .5 else []
                    if w > .7:          # runs of zero diagonals: whole giant steps vanish
                        k = next(q for q in range(1, steps + 1) if q * q >= steps)
                        gone = rng.sample(range(k + 1), rng.randint(1, k))
                        z = [q for q in range(steps) if (q // k) in gone]
                        if w > .85: z = list(range(rng.randrange(steps), steps)) if w > .93 else list(range(rng.randrange(steps)))
                    m = [[0] * n if q in z else vec(rng, n) for q in range(steps)]
                    add(f"rar/pt/{n}/{steps}/{per}/{int(un)}/{len(z)}", slots=n, m=m, v=vec(rng, n), period=per, steps=steps,
                        zero=z, unroll=un, pt=True)
            for per in pers:
                for un in (True, False):
                    add(f"rar/log/{n}/{steps}/{per}/{int(un)}", slots=n, v=vec(rng, n), period=per, steps=steps, unroll=un)
                    if steps <= 8:
                        add(f"rar/mul/{n}/{steps}/{per}/{int(un)}", slots=n, v=vec(rng, n, 1, 4), period=per, steps=steps,
                            unroll=un, reduce=rng.choice(["arith.muli", "arith.mulf"]), mulOp=True)
    for n in [1, 2, 4, 8, 16]:
        for steps in [s for s in (1, 2, 4, 8, 16) if s <= n]:
            add(f"dot/{n}/{steps}", slots=n, v=vec(rng, n), w=vec(rng, n), steps=steps)
    for n in c.scale([4, 8, 16], [4, 8, 16, 32, 64]):
        s = 2
        while s <= n:
            per = 1
            while per * s <= n:
                for un in (True, False):
                    k = dict(slots=n, v=vec(rng, n), period=per, steps=s, unroll=un)
                    if s * per < n:
                        k["mask"] = [1 if (j % (s * per)) // per == s - 1 else 0 for j in range(n)]
                    add(f"bcast/{n}/{s}/{per}/{int(un)}", **k)
                per *= 2
            s *= 2
    shapes = [(r, k) for r in range(1, 9) for k in range(1, 9)]
    if c.quick: shapes = rng.sample(shapes, 26) + [(4, 8), (1, 8), (3, 5), (2, 8), (8, 2), (5, 5)]
    else: shapes += [(r, k) for r in (3, 9, 16) for k in (10, 16, 32)]
    for r, k in shapes:
        R, K = p2(r), p2(k)
        for n in {max(R, K), 2 * max(R, K)}:
            for un in (True, False):
                A, x = mat(rng, r, k), vec(rng, k)
                if rng.random() < .5 and min(r, k) > 1:   # kill generalized diagonals: one, a run, or any set
                    z0, u = rng.randrange(min(R, K)), rng.random()
                    kill = {z0} if u < .4 else set(range(z0, z0 + rng.randint(1, 3))) if u < .7 else set(rng.sample(range(min(R, K)), rng.randint(1, min(R, K) - 1)))
                    for z in kill:
                        for t in range(max(R, K)):
                            i, j = t % R, (t + z) % K
                            if i < r and j < k: A[i][j] = 0
                P = lambda i, j: A[i][j] if i < r and j < k else 0
                m = [[P(t % R, (t + i) % K) for t in range(n)] for i in range(min(R, K))]
                z = [i for i, row in enumerate(m) if not any(row)] if rng.random() < .8 else []
                add(f"hs/{r}x{k}/{n}/{int(un)}/{len(z)}", slots=n, m=m, v=[(x + [0] * (K - k))[j % K] for j in range(n)], mat=A, x=x,
                    shape=[r, k], unroll=un, zero=z)
    tr = [(a, b, d) for a in range(1, 10) for b in range(2, 10) for d in range(1, 10)
          if gcd(a, b) == gcd(b, d) == gcd(a, d) == 1 and a * b * d <= c.scale(140, 400)]
    for a, b, d in rng.sample(tr, min(len(tr), c.scale(24, 200))):
        n = a * b * d * rng.choice([1, 1, 2])
        A, Bm = mat(rng, a, b), mat(rng, b, d)
        add(f"bicyclic/{a}/{b}/{d}/{n}", slots=n, a=A, b=Bm, v=bicyc(A, n), w=bicyc(Bm, n), dm=a, dn=b, dp=d)
    tr = [(h, a, b, d) for h in range(1, 6) for a in range(1, 8) for b in range(2, 8) for d in range(1, 8)
          if all(gcd(x, y) == 1 for x, y in ((h, a), (h, b), (h, d), (a, b), (b, d), (a, d))) and h * a * b * d <= c.scale(220, 600)]
    for h, a, b, d in rng.sample(tr, min(len(tr), c.scale(14, 120))):
        n = h * a * b * d
        A, Bm = [mat(rng, a, b) for _ in range(h)], [mat(rng, b, d) for _ in range(h)]
        add(f"tricyclic/{h}/{a}/{b}/{d}", slots=n, a=A, b=Bm, v=tricyc(A, n), w=tricyc(Bm, n), dh=h, dm=a, dn=b, dp=d)
    return out

def random_dag(rng, sym=False):
    """A random kernel DAG (int vectors of one width, matrices, indices, loops)."""
    n = rng.choice([2, 3, 4, 5, 8])
    nodes, cnt = [], [0]
    vecs, idxs, mats = [], [], []
    def new(lst, o, **k):
        cnt[0] += 1
        nodes_stack[-1].append(dict(o=o, id=cnt[0], **k))
        if lst is not None: lst.append(cnt[0])
        return cnt[0]
    nodes_stack = [nodes]
    def leaf(kind):
        if kind == "v":
            v = vec(rng, n)
            new(vecs, "leaf", v=v, sh=[n], secret=rng.random() < .6)
        else:
            r = rng.randint(1, 4)
            new(None, "leaf", v=mat(rng, r, n), sh=[r, n], secret=rng.random() < .4)
            mats.append((cnt[0], r))
    for _ in range(rng.randint(1, 3)): leaf("v")
    for _ in range(rng.randint(0, 2)): leaf("m")
    new(idxs, "const", v=rng.randint(-7, 9))
    def body(k, depth):
        for _ in range(k):
            w = rng.random()
            if w < .30: new(vecs, rng.choice(["add", "sub"]), i=[rng.choice(vecs), rng.choice(vecs)])
            elif w < .38: new(vecs, "mul", i=[rng.choice(vecs[:4]), rng.choice(vecs[:4])])
            elif w < .60: new(vecs, "rot", i=[rng.choice(vecs), rng.choice(idxs)])
            elif w < .66: new(idxs, "const", v=rng.randint(-9, 12))
            elif w < .72: new(idxs, rng.choice(["add", "sub"]), i=[rng.choice(idxs), rng.choice(idxs)])
            elif w < .76: new(vecs, "splat", v=rng.randint(-3, 3), sh=[n])
            elif w < .79: new(vecs, "ctensor", v=vec(rng, n)) if not sym else None
            elif w < .85 and mats:
                m, r = rng.choice(mats)
                j = new(None, "const", v=rng.randrange(r))
                new(vecs, "ext", i=[m, j])
            elif w < .89:
                j = new(None, "const", v=rng.randrange(n)); s = new(None, "const", v=rng.randint(-4, 4))
                new(vecs, "ins", i=[s, rng.choice(vecs), j])
            elif w < .93 and not sym:
                a = new(None, "cmp", i=[rng.choice(idxs), rng.choice(idxs)], f=rng.choice(["lt", "le", "gt", "ge", "eq", "ne"]))
                t = new(None, "ite", i=[a, rng.choice(vecs), rng.choice(vecs)])
                new(vecs, "res", i=[t], k=1)
            elif w < .96 and not sym and depth < 2:
                inits = [rng.choice(vecs), rng.choice(idxs)]
                lo = rng.randint(-1, 2)
                cnt[0] += 1; fid = cnt[0]
                iv, a1, a2 = cnt[0] + 1, cnt[0] + 2, cnt[0] + 3
                cnt[0] += 3
                b = []
                sv = (list(vecs), list(idxs), list(mats))
                vecs.append(a1); idxs.extend([iv, a2])
                nodes_stack.append(b)
                body(rng.randint(1, 5), depth + 1)
                y = [rng.choice(vecs), rng.choice(idxs)]
                nodes_stack.pop()
                vecs[:], idxs[:], mats[:] = sv
                nodes_stack[-1].append(dict(o="for", id=fid, i=inits, tys=[[n], []], lo=lo, up=lo + rng.randint(0, 4), st=rng.randint(1, 2),
                                            iv=iv, args=[a1, a2], body=b, y=y))
                new(vecs, "res", i=[fid], k=1)
                new(idxs, "res", i=[fid], k=2)
            elif w < .98:
                j = new(None, "const", v=rng.randint(0, 40))
                new(idxs, "fdiv", i=[j], k=rng.randint(1, 5))
            else:
                new(idxs, "mul", i=[rng.choice(idxs), new(None, "const", v=rng.randint(-2, 3))])
    body(rng.randint(3, 14), 0)
    roots = [vecs[-1]] if sym else [vecs[-1], rng.choice(vecs), rng.choice(idxs)]
    return dict(c="dag", nodes=nodes, roots=roots)
