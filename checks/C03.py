import kernels
def run(c):
    c.build("hkern")
    cases = kernels.kernel_cases(c)
    for k in cases:
        k.pop("mat", 0)
    idx = [dict(c="rotidx", period=p, steps=s, pt=pt) for s in c.scale(range(1, 40), range(1, 150))
           for p in c.scale((1, 2, 3, 5), range(1, 9)) for pt in (True, False)]
    rar = [k for k in cases if k["kernel"] == "rar"]
    ans = c.drive("hkern", cases + idx + [dict(c="rotidx", period=k["period"], steps=k["steps"], pt=k["pt"]) for k in rar])
    recs = []
    ridx = {id(k): a for k, a in zip(rar, ans[len(cases) + len(idx):])}
    for k, a in zip(cases, ans):
        r = dict(t="rotations", key=k["key"], slots=k["slots"])
        r.update({x: a[x] for x in ("dag", "sdag", "rots", "count", "crash") if x in a})
        # with declared-zero diagonals fewer keys are used than requested
        if id(k) in ridx and not k["zero"]: r["idx"] = ridx[id(k)].get("idx", [-1])
        recs.append(r)
    for k, a in zip(idx, ans[len(cases):]):
        recs.append(dict(k, t="rotidx", key=f"rotidx/{k['period']}/{k['steps']}/{k['pt']}", **a))
    rng = c.rng
    lin = []
    for _ in range(c.scale(300, 3000)):
        slots = rng.choice([2, 4, 8, 16, 32, 64])
        d = rng.sample(range(-slots, 2 * slots), rng.randint(1, min(12, 2 * slots))) if rng.random() < .7 else list(range(rng.randint(1, slots)))
        lin.append(dict(c="lintrans", diags=d, slots=slots, log=rng.randint(-1, 4)))
    nr = [dict(c="normrot", a=a, n=n) for n in range(1, 20) for a in range(-45, 46)]
    for k, a in zip(lin + nr, c.drive("hkern", lin + nr)):
        recs.append(dict(k, t=k["c"], key=f"{k['c']}/{k.get('diags')}/{k.get('slots')}/{k.get('log')}/{k.get('a')}/{k.get('n')}", **a))
    dags = []
    for i in range(c.scale(250, 3000)):
        d = kernels.random_dag(rng, sym=True)
        # bulk rotations exist only here: they have no evaluator
        vs = [n for n in d["nodes"] if n["o"] in ("rot", "leaf") and len(n.get("sh", [1])) == 1]
        ks = [n["id"] for n in d["nodes"] if n["o"] == "const"]
        dags.append(dict(d, key=f"dag/{i}", count=True, rots=True, roots=[d["roots"][0]]))
    for k, a in zip(dags, c.drive("hkern", dags)):
        if "crash" in a: recs.append(dict(t="count", key=k["key"], **a)); continue
        recs.append(dict(t="count", key=k["key"], sdag=a["sdag"], count=a["count"], again=a["again"]))
        recs.append(dict(t="dag", key=k["key"] + "/shifts", dag=a["dag"], rdag=a["rdag"], eval=a["eval"], rots=a["rots"]))
    loops = [dict(kernels.random_dag(rng), key=f"loop/{i}", rots=True) for i in range(c.scale(200, 2500))]
    for k, a in zip(loops, c.drive("hkern", loops)):
        if "crash" in a: recs.append(dict(t="dag", key=k["key"], **a)); continue
        recs.append(dict(t="dag", key=k["key"], rdag=a["rdag"], dag=a["dag"], eval=a["eval"], rots=a["rots"], nodes=k["nodes"], roots=k["roots"]))
    c.count("kernels", len(cases)); c.count("random_dags", len(dags) + len(loops))
    c.sample({x: recs[5][x] for x in ("key", "rots", "count") if x in recs[5]})
    c.check("Kernels", recs, what="rotation indices or costs are not those of the run")
