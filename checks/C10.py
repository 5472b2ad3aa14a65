def run(c):
    c.build("hgraph")
    rng = c.rng
    cmds = []
    def hist(key, ops, probe, wt=()):
        cmds.append(dict(c="hist", t="hist", key=key, ops=ops, probe=probe, wt=list(wt)))
    def digraph(key, n, edges, tail, weights=False):
        ops = [["v", i] for i in range(n)] + [["e", a, b] for a, b in edges] + tail
        wt = [[rng.randint(0, 9) for _ in range(n + 2)] for _ in range(n + 2)] if weights else []
        hist(key, ops, list(range(n + 1)), wt)
    # every digraph with at most 3 vertices (loops included), every loop-free one with 4 (sampled when quick)
    for n in range(0, 4):
        for m in range(1 << (n * n)):
            e = [(i // n, i % n) for i in range(n * n) if m >> i & 1]
            digraph(f"all{n}/{m}", n, e, [["obs"], ["condense"], ["obs"]])
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for m in (range(4096) if not c.quick else rng.sample(range(4096), 350)):
        digraph(f"all4/{m}", 4, [p for i, p in enumerate(pairs) if m >> i & 1], [["obs"], ["condense"], ["obs"]], True)
    # every DAG with 4 vertices over a permutation of the labels
    for i in range(c.scale(250, 3000)):
        n = rng.randint(3, 9)
        perm = list(range(n)); rng.shuffle(perm)
        d = rng.choice([.15, .3, .5, .8])
        e = [(perm[a], perm[b]) for a in range(n) for b in range(a + 1, n) if rng.random() < d]
        rng.shuffle(e)
        digraph(f"dag/{i}", n, e, [["obs"]], True)
    # long mixed histories
    for i in range(c.scale(250, 4000)):
        n = rng.randint(2, 8)
        ops = []
        for _ in range(rng.randint(4, 30)):
            k = rng.random()
            a, b = rng.randint(0, n), rng.randint(0, n)
            if k < .25: ops.append(["v", rng.randint(0, n - 1)])
            elif k < .55: ops.append(["e", a, b])
            elif k < .7: ops.append(["w", a, b, rng.randint(1, 9)])
            elif k < .82:
                if a != b: ops.append([rng.choice(["contract", "contract0"]), a, b])
            elif k < .86: ops.append(["condense"])
            else: ops.append(["obs"])
        ops.append(["obs"])
        hist(f"hist/{i}", ops, list(range(n + 1)), [[rng.randint(0, 5) for _ in range(n + 2)] for _ in range(n + 2)])
    ncol = c.scale(200, 2500)
    for i in range(ncol):
        graphs = []
        for _ in range(3):
            n = rng.randint(0, 9)
            lab = rng.sample(range(-5, 40), n)
            kind = rng.random()
            if kind < .4:      # bipartite
                side = {v: rng.random() < .5 for v in lab}
                e = [[a, b] for a in lab for b in lab if side[a] and not side[b] and rng.random() < .6]
            elif kind < .5:
                e = [[a, b] for a in lab for b in lab if a < b]
            else:
                e = [[a, b] for a in lab for b in lab if a < b and rng.random() < .4]
            e += [[rng.randint(-5, 40), rng.randint(-5, 40)] for _ in range(2)]
            e = [x for x in e if x[0] != x[1]]
            rng.shuffle(e)
            graphs.append(dict(v=lab, e=e))
        probe = sorted({v for g in graphs for v in g["v"]} | {77})
        cmds.append(dict(c="color", t="color", key=f"color/{i}", graphs=graphs, probe=probe))
    recs = [dict(k, **a) for k, a in zip(cmds, c.drive("hgraph", cmds))]
    c.count("histories", len(cmds) - ncol); c.count("colourings", 3 * ncol)
    c.sample({x: recs[700][x] for x in ("key", "ops")})
    c.check("Graphs", recs, what="graph operation does not conform")
