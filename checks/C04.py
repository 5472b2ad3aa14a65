import layouts
from layouts import *
def run(c):
    rng = c.rng; cmds = []
    def add(e, key=None, **q):
        q.setdefault("pts", True); cmds.append((e, q, dict(key=key) if key else {}))
    def evalq(e, shape, cts):
        v = [[rng.randint(1, 10 ** 6) for _ in range(shape[-1])] for _ in range(1 if len(shape) == 1 else shape[0])]
        q = dict(eval=v)
        if rng.random() < .5: q["oshape"] = [cts, e["n"]]
        add(e, **q)
    def rec(e, shape, n):
        if len(shape) != 2 or max(shape) <= n: add(e, rec=dict(shape=shape, n=n))
    K = c.scale(1, 6)
    # row-major, all ranks
    for n in (1, 2, 4, 8, 16, 32):
        for sh in ([1], [2], [3], [5], [8], [9], [16], [17], [33]):
            e = dict(k="rowmajor", shape=sh, n=n)
            if sh[0] <= 16 * n: evalq(e, sh, -(-sh[0] // n)); rec(e, sh, n)
    for _ in range(60 * K):
        sh = [rng.randint(1, 6) for _ in range(rng.choice([2, 2, 3, 4]))]
        if prod(sh) > 96: continue
        n = rng.choice([4, 8, 12, 16, 32, 64]); e = dict(k="rowmajor", shape=sh, n=n)
        if len(sh) == 2: evalq(e, sh, -(-prod(sh) // n))
        else: add(e)
        rec(e, sh, n)
    for m in range(1, 7):
        for n_ in range(1, 10):
            if c.quick and (m * 7 + n_ * 3) % 2: continue
            lo = max(p2up(m), p2up(n_)); n = rng.choice([max(m, n_), lo, 2 * lo, 32 if lo <= 32 else lo])
            e = dict(k="diagonal", shape=[m, n_], n=n)
            evalq(e, [m, n_], min(p2up(m), p2up(n_))); rec(e, [m, n_], n)
            n = rng.choice([n_, p2up(n_), 2 * p2up(n_)])
            e = dict(k="perrow", shape=[m, n_], n=n); evalq(e, [m, n_], m); rec(e, [m, n_], n)
            # a layout is not another one
            rec(dict(k="rowmajor", shape=[m, n_], n=lo), [m, n_], lo)
            if gcd(m, n_) == 1:
                n = rng.choice([m * n_, 8, 16, m * n_ + 3]); e = dict(k="bicyclic", shape=[m, n_], n=n)
                evalq(e, [m, n_], -(-m * n_ // n)); 
                if n >= max(m, n_): rec(e, [m, n_], n)
            for cd in (0, 1):
                if rng.random() < .5: evalq(dict(k="bicyclicdiag", shape=[m, n_], dim=cd, stride=rng.randint(1, 7), n=rng.choice([m * n_, 16, 8])), [m, n_], [m, n_][cd])
    for sh in ([2, 3, 5], [3, 4, 5], [1, 2, 3], [3, 2, 1], [5, 3, 2], [2, 3, 7], [4, 3, 1], [3, 5, 7][:3]):
        for n in (prod(sh), 16, 2 * prod(sh) + 1):
            e = dict(k="tricyclic", shape=sh, n=n); add(e); rec(e, sh, n)
    for n, p in ((8, 8), (8, 3), (16, 5), (12, 4), (7, 1)): add(dict(k="periodic", cts=1, n=n, period=p))
    # membership by the relation itself, not by the enumeration
    for e, d in [(dict(k="rowmajor", shape=[3], n=4), 1), (dict(k="rowmajor", shape=[5], n=2), 1), (dict(k="diagonal", shape=[3, 2], n=4), 2), (dict(k="perrow", shape=[2, 3], n=5), 2), (dict(k="bicyclic", shape=[2, 3], n=4), 2)]:
        hi = [5] * d + [4, 6]
        add(e, lo=[-1] * (d + 2), hi=hi)
    # layouts seen through reshapes
    for _ in range(60 * K):
        sh, groups = [], []
        for g in range(rng.randint(1, 3)):
            g = rng.randint(1, 3); big = rng.randint(1, 4); u = [1] * (g - 1); u.insert(rng.randrange(g), big)
            groups.append(list(range(len(sh), len(sh) + g))); sh += u
        n = rng.choice([4, 8, 16]); src = dict(k="rowmajor", shape=sh, n=n)
        drop = [j for g in groups for j in (g[1:] if all(sh[x] == 1 for x in g) else g) if sh[j] == 1]
        res = [s for j, s in enumerate(sh) if j not in drop]
        if len(res): add(dict(k="collapse", of=src, shape=sh, groups=groups, result=res, drop=drop))
        # expansion is the inverse
        small = [max(sh[j] for j in g) for g in groups]
        ok = all(sum(sh[j] > 1 for j in g) <= 1 for g in groups)
        if ok: add(dict(k="expand", of=dict(k="rowmajor", shape=small, n=n), shape=sh, groups=groups, units=[j in drop for j in range(len(sh))]))
        # general collapse
        sh = [rng.randint(1, 3) for _ in range(sum(map(len, groups)))]
        add(dict(k="collapsed", src=sh, dst=[prod(sh[j] for j in g) for g in groups], groups=groups), size=True)
    # slices and padding
    for i in range(120 * K):
        r = rng.randint(1, 3); sh = [rng.randint(1, 5) for _ in range(r)]
        st = [rng.randint(1, 2) for _ in range(r)]; sizes, off = [], []
        for s, t in zip(sh, st):
            z = rng.randint(1, (s + t - 1) // t); o = rng.randint(0, s - 1 - (z - 1) * t); sizes.append(z); off.append(o)
        small = [z for z in sizes]
        for j in reversed(range(r)):
            if small[j] == 1 and rng.random() < .6: del small[j]
        # which unit dimensions were dropped is decided left to right by the types
        k = rng.choice(["sliceins", "sliceext"])
        add(dict(k=k, slice=small, shape=sh, off=off, sizes=sizes, strides=st))
    for _ in range(30 * K):
        r = rng.randint(1, 3); sh = [rng.randint(1, 4) for _ in range(r)]; lo = [rng.randint(0, 3) for _ in sh]
        add(dict(k="padding", shape=sh, padded=[s + l + rng.randint(0, 2) for s, l in zip(sh, lo)], low=lo))
    for _ in range(60 * K):
        con = rnd_con(rng, rng.choice([1, 2]), 2)
        if not points(con): continue
        n = con["d"] + 2
        add(dict(k="shift", of=con, pos=rng.randrange(n), by=rng.randint(-3, 4)))
        dom = rng.random() < .5; ln = con["d"] if dom else 2
        o = 0 if dom else con["d"]
        v = [rng.randint(con["lo"][o + j], con["hi"][o + j]) for j in range(rng.randint(1, ln))]
        e = dict(k="fix", of=con, dom=dom, v=v)
        cmds.append((e, dict(lo=[x - 1 for x in con["lo"]], hi=[x + 1 for x in con["hi"]]), {}))
        add(dict(k="prepend", of=con, lb=0, ub=rng.randint(0, 3)))
        add(con, comp=[rng.randint(1, 6), 4]); add(con, dense=[rng.randint(1, 4), rng.randint(1, 3)])
    # permutations folded into, and conversions hoisted through, matrix layouts
    for i in range(30 * K):
        n = rng.choice([4, 8]); m = rng.choice([2, 4, 8][: 2 if n == 4 else 3]); mat = dict(k="diagonal", shape=[m, n], n=rng.choice([n, 2 * n]))
        a, b = rng.choice([x for x in range(1, n, 2)]), rng.randrange(n)
        perm = dict(k="con", d=1, r=2, lo=[0, 0, 0], hi=[n - 1, 0, n - 1], eq=[], ge=[], mods=[[a, 0, -1, b, n, 0]])
        add(dict(k="foldperm", perm=isl(perm), of=mat))
        add(perm, rec=dict(shape=[n], n=n))
        N = mat["n"]
        fr = dict(k="round", of=dict(k="rowmajor", shape=[n], n=N))
        to = dict(k="con", d=1, r=2, lo=[0, 0, 0], hi=[n - 1, 0, N - 1], eq=[], ge=[], mods=[[a, 0, -1, b, n, 0]])
        x, y = rng.choice([(fr, isl(to)), (isl(to), fr), (fr, fr), (isl(to), isl(to))])
        e = dict(k="hoist", of=mat, to=y); e["from"] = x
        add(e)
    for i in range(30 * K):
        r = rng.choice([2, 3]); sh = [rng.randint(2, 4) for _ in range(r)]
        un = sorted(rng.sample(range(r), rng.randint(1, r - 1))); sizes = [1 if j in un else sh[j] for j in range(r)]
        n = rng.choice([2, 4, 8])
        small = sizes if i % 2 else [s for j, s in enumerate(sizes) if j not in un]
        add(dict(k="push", sizes=sizes, shape=sh, of=dict(k="round", of=dict(k="rowmajor", shape=small, n=n))))
    layouts.run(c, cmds, "layout relation is not the specified one")
