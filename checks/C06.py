import itertools
def p2(n): return n & (n - 1) == 0
def powers(n):
    r, p = [], 1
    while p < n: r.append(p); p *= 2
    return r
def run(c):
    c.build("hshift")
    rng = c.rng
    # the machine: every mapping, every collision-free group, every order of the rounds
    sizes = c.scale([2, 3, 4], [2, 3, 4, 5])
    for n in sizes:
        ords = "{" + ", ".join("<<" + ", ".join(map(str, p)) + ">>" for p in itertools.permutations(powers(n))) + "}"
        c.model("ShiftMachine", f"SPECIFICATION MSpec\nINVARIANT Applied\nCONSTANT VSize = {n}\nCONSTANT Orders <- Ords\n", consts=f"Ords == {ords}")
    cmds = []
    def mk(n, cts, adds, kind="net", order=(), **k):
        d = dict(c=kind, n=n, cts=cts, map=adds, order=list(order), **k)
        if kind == "net":
            d["in"] = [[rng.randint(1, 10 ** 6) for _ in range(n)] for _ in range(cts)]
            d.setdefault("tries", 0)
        cmds.append(d)
    def flat(n, pairs): return [[s // n, s % n, t // n, t % n] for s, t in pairs]
    # every mapping of at most 4 virtual slots
    for n, cts in ((2, 1), (4, 1), (2, 2), (1, 2), (1, 3)):
        N = n * cts
        allm = list(itertools.product(range(-1, N), repeat=N))
        if c.quick and len(allm) > 300: allm = rng.sample(allm, 300)
        for m in allm:
            pairs = [(s, t) for t, s in enumerate(m) if s >= 0]
            if pairs: mk(n, cts, flat(n, pairs))
    ordcache = {}
    for i in range(c.scale(420, 5000)):
        n = rng.choice([2, 4, 8, 8, 16, 16, 32, 64][: c.scale(7, 8)])
        cts = rng.choice([1, 1, 1, 2, 3, 4, 5]) if n <= 16 else rng.choice([1, 1, 2])
        if n == 32 and c.quick and i % 3: n = 8
        N = n * cts
        kind = i % 6
        slots = list(range(N))
        if kind == 0:
            p = slots[:]; rng.shuffle(p); pairs = list(zip(p, slots))
        elif kind == 1:                     # a rotation, with some slots dropped
            a = rng.randrange(N); pairs = [((t + a) % N, t) for t in slots if rng.random() < .9]
        elif kind == 2:                     # replication of few sources
            src = rng.sample(slots, rng.randint(1, max(1, N // 2))); pairs = [(rng.choice(src), t) for t in slots if rng.random() < .7]
        elif kind == 3:                     # sparse
            pairs = [(rng.choice(slots), t) for t in rng.sample(slots, rng.randint(1, min(6, N)))]
        elif kind == 4:                     # several sources offered for a target
            pairs = [(rng.choice(slots), rng.choice(slots)) for _ in range(rng.randint(1, 2 * N))]
        else:                               # blocks that move together, across ciphertexts
            b = rng.randint(1, N); d = rng.randrange(N); e = rng.randrange(N)
            pairs = [((d + q) % N, (e + q) % N) for q in range(b)]
        if not pairs: pairs = [(0, N - 1)]
        rng.shuffle(pairs)
        order = powers(N); rng.shuffle(order)
        if rng.random() < .5: order = []
        if i % 3 == 2: mk(n, cts, flat(n, pairs), "strategy", order)
        else:
            mk(n, cts, flat(n, pairs), "net", order, shared=rng.random() < .5, seed=rng.randrange(100), tries=rng.choice([0, 0, 3]))
            if cmds[-1]["shared"] and rng.random() < .5 and len(pairs) > 1:
                # the same mapping but for one entry: no cache may mix them up
                q = list(pairs); q[-1] = (rng.choice(slots), q[-1][1]); mk(n, cts, flat(n, q), "net", order, shared=True)
    orders = [dict(c="order", n=n) for n in list(range(1, c.scale(200, 2000)))]
    ans = c.drive("hshift", cmds + orders)
    recs = []
    for k, (q, a) in enumerate(zip(cmds, ans)):
        r = dict(t=q["c"], key=f"{q['c']}/{k}/{q['n']}x{q['cts']}", n=q["n"], cts=q["cts"], adds=q["map"], order=q["order"], tries=q.get("tries", 0), **a)
        if "in" in q: r["in"] = q["in"]
        for nd in a.get("dag", {}).get("n", []):     # one ciphertext is a 1 x n tensor
            if len(nd.get("sh", [])) == 2: nd["sh"] = nd["sh"][1:]
        r["ord"] = q["order"] or powers(q["n"] * q["cts"])
        if q["n"] * q["cts"] == 1: continue
        recs.append(r)
    for q, a in zip(orders, ans[len(cmds):]):
        recs.append(dict(t="order", key=f"order/{q['n']}", n=q["n"], **a))
    c.count("mappings", len(cmds))
    c.sample({x: recs[3][x] for x in ("key", "adds", "groups")})
    c.check("ShiftNet", recs, what="shift network does not apply its mapping")
