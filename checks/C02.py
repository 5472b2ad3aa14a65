import kernels
def run(c):
    c.build("hkern")
    cases = kernels.kernel_cases(c)
    recs = []
    for k, a in zip(cases, c.drive("hkern", cases)):
        r = dict(k, t="kernel", **{x: a[x] for x in ("dag", "eval", "crash") if x in a})
        recs.append(r)
    dags = [dict(kernels.random_dag(c.rng), key=f"dag/{i}") for i in range(c.scale(300, 4000))]
    for k, a in zip(dags, c.drive("hkern", dags)):
        recs.append(dict(t="dag", key=k["key"], nodes=k["nodes"], **{x: a[x] for x in ("dag", "eval", "crash") if x in a}))
    c.count("kernels", len(cases)); c.count("random_dags", len(dags))
    c.sample({x: recs[5][x] for x in ("key", "slots", "v", "eval") if x in recs[5]})
    c.check("Kernels", recs, what="kernel DAG does not compute its function")
