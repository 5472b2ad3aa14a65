def red(x):
    """integers written as floats, modulo the field the specification computes in"""
    if isinstance(x, list): return [red(y) for y in x]
    if isinstance(x, dict) and set(x) == {"f"}:
        v = float(x["f"])
        return int(v) % 32749 if v == int(v) and abs(v) < 2 ** 53 else x
    return x
def run(c):
    c.build("hpoly")
    rng, cmds, mk = c.rng, [], []
    def add(cmd, f): cmds.append(cmd); mk.append(f)
    def ev(k, **kw):
        return dict(dict(c="eval", k=k, co=[], cc=[], n=0, sh=[]), **kw)
    shapes = [[], [], [4], [2, 3]]
    # ---- monomial basis: Horner and Paterson-Stockmeyer
    for i in range(c.scale(160, 2000)):
        d = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25, 26, 30, 36])
        dens = rng.choice([.2, .5, 1])
        co = [[rng.randint(-50, 50) or 1, e] for e in range(d + 1) if e == d or rng.random() < dens]
        if i % 20 == 0: co = []
        if i % 7 == 0: co = [[0 if rng.random() < .3 else a, e] for a, e in co]
        sh = rng.choice(shapes); k = ("horner", "ps")[i % 2]
        add(ev(k, co=co, sh=sh), lambda x, co=co, d=d, sh=sh, i=i, k=k: dict(t="mono", key=f"{k}/{i}", co=co, d=d, sh=sh, dag=x["dag"]))
    # ---- Chebyshev basis
    for i in range(c.scale(150, 2500)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 40]) if i > 34 or not c.quick else i
        p0 = rng.choice([0, 0, .5, .85])
        cc = [0 if rng.random() < p0 else rng.randint(-40, 40) for _ in range(n)]
        if i % 15 == 0: cc = [0] * n
        if i % 9 == 0: cc = [0 if j % 2 == 0 else v for j, v in enumerate(cc)]
        sh = rng.choice(shapes)
        add(ev("pscheb", cc=cc, sh=sh), lambda x, cc=cc, sh=sh, i=i: dict(t="cheb", key=f"pscheb/{i}", cc=cc, sh=sh, dag=x["dag"], slack=SLACK))
        k = rng.randint(max(1, n // 4), max(9, n // 4))
        add(dict(c="decomp", cc=cc, k=k), lambda x, cc=cc, k=k, i=i: dict(t="decomp", key=f"decomp/{k}/{i}", cc=cc, k=k, r=red(x["r"])))
        m = min(n, 13)
        add(dict(c="tostd", cc=cc[:m], n=m), lambda x, cc=cc[:m], m=m, i=i: dict(x, std=red(x["std"]), T=red(x["T"]), t="tostd", key=f"tostd/{i}", cc=cc, n=m))
        for _ in range(3):
            a, b = rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([-2, -1, 0, 0, 1, 3])
            lin = [[b, 0], [a, 1]] if b else [[a, 1]]
            mm = rng.choice([m, min(m, 4), min(m, 3)])
            add(dict(c="compose", cc=cc[:mm], lin=lin), lambda x, cc=cc[:mm], a=a, b=b, i=i: dict(t="compose", key=f"compose/{i}/{cc}/{a}/{b}", cc=cc, a=a, b=b, r=red(x["r"])))
    for n in list(range(0, 34)) + [40, 64, 65]:
        if n > 24 and c.quick and n % 4: continue
        for k in ("powers", "chebs", "chebrec"):
            sh = shapes[n % 4]
            add(ev(k, n=n, sh=sh), lambda x, n=n, k=k, sh=sh: dict(t="powers", kind=k, key=f"{k}/{n}", n=n, sh=sh, dag=x["dag"]))
    for n in range(2, c.scale(300, 2000)):
        add(dict(c="split", n=n), lambda x, n=n: dict(x, t="split", key=f"split/{n}", n=n))
    # ---- interpolation
    for i in range(c.scale(150, 2000)):
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 33])
        cc = [rng.randint(-9, 9) if rng.random() < .7 else 0 for _ in range(rng.randint(0, n))]
        vals = [rng.randint(-9, 9) for _ in range(n)]
        k = i % 5
        if k == 1: vals = [-vals[n - 1 - j] if j > n // 2 else vals[j] for j in range(n)]        # odd but perhaps at the middle
        if k == 2: vals = [vals[n - 1 - j] if j > n // 2 else vals[j] for j in range(n)]
        if k == 3:
            vals = [-vals[n - 1 - j] if j >= (n + 1) // 2 else vals[j] for j in range(n)]
            if n % 2: vals[n // 2] = rng.choice([0, 3])
        if k == 4:
            vals = [-vals[n - 1 - j] if j >= (n + 1) // 2 else vals[j] for j in range(n)]
            j = rng.randrange(n); vals[j] += 1
        add(dict(c="interp", cc=cc, n=n, vals=vals), lambda x, cc=cc, n=n, vals=vals, i=i: dict(x, t="interp", key=f"interp/{i}", cc=cc, n=n, vals=vals))
    # ---- adaptive approximation
    for i in range(c.scale(120, 1500)):
        fn = ["poly", "exp", "cos", "sin", "abs", "relu", "runge", "sigmoid"][i % 8]
        cc = [rng.randint(-9, 9) for _ in range(rng.randint(1, 12))] if fn == "poly" else []
        if fn == "poly" and not any(cc): cc = [1]
        lo, up = rng.choice([(-1, 1), (-1, 1), (-2, 2), (0, 1), (-.5, 1.5)])
        e = rng.choice([0, 1, -1, 5, -7, 20, -20])
        deg = rng.randint(1, 14)
        add(dict(c="approx", fn=fn, cc=cc, lo=lo, up=up, e=e, deg=deg),
            lambda x, fn=fn, cc=cc, i=i, lo=lo, up=up, e=e, deg=deg: dict(x, t="approx", key=f"approx/{fn}/{lo}/{up}/{e}/{deg}/{i}", cc=cc, deg=deg, fn=fn, smooth=int(fn not in ("abs", "relu"))))
    recs = [dict(t="x", key=str(k)[:200], **a) if "crash" in a else f(a) for k, f, a in zip(cmds, mk, c.drive("hpoly", cmds))]
    for r in recs: c.count("n_" + r["t"])
    c.sample({k: recs[3][k] for k in ("key", "co")}); c.sample(recs[-1])
    c.check("PolyEval", recs, what="polynomial evaluation or approximation is wrong")
SLACK = 0
