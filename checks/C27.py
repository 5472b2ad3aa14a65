import layouts
from layouts import *
def run(c):
    rng = c.rng; cmds = []
    def add(e, key=None, **q): cmds.append((e, q, dict(key=key) if key else {}))
    # relations as sets: enumeration, membership, range, size, loops
    for i in range(c.scale(420, 5000)):
        d, r = rng.choice([(1, 1), (1, 2), (2, 2), (2, 1), (1, 2), (3, 2), (2, 3)])
        con = rnd_con(rng, d, r, 4 if d + r < 4 else 2)
        full = points(con)
        e = con if i % 2 else isl(con)
        if i % 3 == 0: e = dict(k="round", of=e)
        if not full:
            if e is con: add(e, pts=True, range=True, size=True)   # an empty relation
            continue
        sched = [] if d == 0 or rng.random() < .6 else [rng.randrange(d)]
        q = dict(pts=True, range=True, any=True, size=True, c=True, sched=sched)
        if i % 4 == 0 and d + r <= 4: q.update(lo=[l - 1 for l in con["lo"]], hi=[h + 1 for h in con["hi"]])
        if r == 2:
            q["comp"] = [rng.randint(1, 6), 4]
            b = con["hi"][d] + 1, con["hi"][d + 1] + 1
            q["dense"] = [max(1, x - (rng.random() < .2)) for x in b]
        add(e, **q)
    # dense and not quite dense layouts
    for i in range(c.scale(60, 600)):
        sh = [rng.randint(1, 5) for _ in range(rng.choice([1, 2]))]; n = rng.choice([2, 4, 8, 16])
        e = dict(k="rowmajor", shape=sh, n=n)
        cts = -(-prod(sh) // n)
        add(e, pts=True, dense=[cts, n], size=True, comp=[cts + rng.randint(0, 2), n], c=True)
        m, k = rng.randint(1, 6), rng.randint(1, 6); N = p2up(max(m, k)) * rng.choice([1, 2])
        add(dict(k="diagonal", shape=[m, k], n=N), pts=True, dense=[min(p2up(m), p2up(k)), N], size=True, c=True, sched=rng.choice([[], [0], [1], [0, 1], [1, 0]]))
    # equality answers
    pool = []
    for i in range(c.scale(12, 60)):
        con = rnd_con(rng, 1, 2, 3)
        if points(con): pool += [con, isl(con), dict(k="round", of=con)]
    base = lambda: dict(k="con", d=1, r=1, lo=[0, 0], hi=[5, 5], eq=[[1, -1, 0]], ge=[], mods=[])
    for i in range(c.scale(300, 3000)):
        a = rng.choice(pool); b = rng.choice(pool)
        if rng.random() < .3: b = a
        add(a, eq=b)
    for sh in ([6], [5], [2, 3], [4, 4], [3, 5]):
        for n in (8, 16):
            xs = [dict(k="rowmajor", shape=sh, n=n)]
            if len(sh) == 2: xs += [dict(k="diagonal", shape=sh, n=n), dict(k="perrow", shape=sh, n=n)]
            for a in xs:
                for b in xs: add(a, eq=b, vol=True); add(dict(k="round", of=a), eq=b, vol=True); add(a, eq=dict(k="round", of=b), vol=True)
    # one set, written with different constraints
    def var(**k): return dict(base(), **k)
    forms = [("bounds", var(hi=[4, 4])), ("loose bounds, tight inequality", var(hi=[5, 5], ge=[[-1, 0, 4]])), ("inequality with a factor", var(hi=[5, 5], ge=[[-2, 0, 9]])),
             ("even, bound 4", var(hi=[4, 4], mods=[[1, 0, 0, 2, 0]])), ("even, bound 5", var(hi=[5, 5], mods=[[1, 0, 0, 2, 0]]))]
    for na, a in forms:
        for nb, b in forms: add(a, key=f"equal/{na}/{nb}".replace(" ", "-").replace(",", ""), eq=b, vol=True)
    # recognisers on everything
    for i in range(c.scale(80, 800)):
        m, k = rng.randint(1, 6), rng.randint(1, 6); N = p2up(max(m, k)) * rng.choice([1, 2, 4])
        kinds = [dict(k="rowmajor", shape=[m, k], n=N), dict(k="diagonal", shape=[m, k], n=N), dict(k="perrow", shape=[m, k], n=N)]
        if gcd(m, k) == 1: kinds.append(dict(k="bicyclic", shape=[m, k], n=N))
        e = rng.choice(kinds)
        add(dict(k="round", of=e) if rng.random() < .5 else e, rec=dict(shape=[m, k], n=N))
        # off by one place
        r = p2up(k); n = r * rng.choice([1, 2])
        pm = dict(k="con", d=1, r=2, lo=[0, 0, 0], hi=[k - 1, rng.choice([0, 0, 0, 1]), n - 1], eq=[], ge=[], mods=[[1, 0, -1, rng.choice([0, 0, 1]), r, 0]])
        add(isl(pm), rec=dict(shape=[k], n=n))
    layouts.run(c, cmds, "answer about a relation is not true of its points")
