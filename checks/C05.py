import layouts
from layouts import *
def run(c):
    rng = c.rng; cmds = []
    def add(e, types=True, **x):
        q = x.pop("q", {}); q.setdefault("pts", True)
        if types: x["types"] = dict(filter=e["filter"], data=e["data"], pad=e["pad"], strides=e["strides"])
        cmds.append((e, q, x))
    out = lambda d, f, s, p: (d + 2 * p - f) // s + 1
    # one dimension: every small filter, data, stride and padding
    for f in range(1, c.scale(5, 7)):
        for d in range(1, c.scale(9, 14)):
            for s in (1, 2, 3):
                for p in (0, 1, 2):
                    if d + 2 * p < f or (c.quick and rng.random() < .4): continue
                    e = dict(k="conv1", filter=[f], data=[d], stride=s, strides=[s], pad=p)
                    add(e)
                    if s == 1 and p < f:
                        n = p2up(max(out(d, f, 1, p), d)) * rng.choice([1, 2])
                        e = dict(k="convdiag", filter=[f], data=[d], pad=p, n=n, strides=[1, 1]); add(e, q=dict(crec=dict(filter=[f], data=[d], pad=p, n=n)))
    for _ in range(c.scale(160, 1500)):
        fs = [rng.randint(1, 3), rng.randint(1, 3)]; ds = [rng.randint(1, 6), rng.randint(1, 6)]
        st = [rng.randint(1, 3), rng.randint(1, 3)]; p = rng.randint(0, 2)
        if any(d + 2 * p < f for d, f in zip(ds, fs)): continue
        add(dict(k="conv2", filter=fs, data=ds, strides=st, pad=p))
        o = [out(d, f, 1, p) for d, f in zip(ds, fs)]
        if p < min(fs):
            n = p2up(max(prod(o), prod(ds)))
            if n <= 32: add(dict(k="convdiag", filter=fs, data=ds, strides=[1, 1], pad=p, n=n), q=dict(crec=dict(filter=fs, data=ds, pad=rng.choice([p, 0]) if all(d >= f for d, f in zip(ds, fs)) else p, n=n)))
        F, C = rng.randint(1, 3), rng.randint(1, 3)
        if F * C * prod(fs) * prod(ds) < 500: add(dict(k="conv2c", filter=[F, C] + fs, data=[1, C] + ds, strides=st, pad=p))
        if ds[0] + 2 * p >= fs[0]:
            add(dict(k="conv1c", filter=[F, C, fs[0]], data=[1, C, ds[0]], stride=st[0], strides=[st[0]], pad=p))
    for _ in range(c.scale(60, 500)):
        s = rng.choice([1, 1, 2, 2, 3]); f, d, p = rng.randint(1, 3), rng.randint(2, 8), rng.randint(0, 1)
        inter = rng.random() < .7; F = rng.randint(1, 2) * (s if inter else 1); C = rng.randint(1, 2)
        if d + 2 * p < f or p >= f: continue
        o = out(d, f, s, p); n = p2up(max(F * o, C * d)) * rng.choice([1, 1, 2])
        if n > 32: continue
        add(dict(k="conv1cdiag", filter=[F, C, f], data=[1, C, d], stride=s, strides=[s], pad=p, n=n, inter=inter))
        for N in (n, 4):
            add(dict(k="result1", shape=[1, F, o], stride=s, strides=[s], pad=p, n=N, inter=inter), types=False)
    for g in (1, 2, 3):
        for co in (1, 2, 3):
            for h, w in ((1, 1), (2, 3), (3, 2), (1, 4)):
                if co * g * g * h * w <= 80:
                    add(dict(k="inter2", ch=co * g * g, h=h, w=w, g=g), types=False)
                    for n in (p2up(co * g * g * h * w), 2 * p2up(co * g * g * h * w), 8):
                        e = dict(shape=[1, co * g * g, h, w], strides=[g, g], n=n, pad=0)
                        add(dict(k="result2", **e), types=False)
                        if n >= p2up(co * g * g * h * w) or c.scale(0, 1): add(dict(k="inter2lay", **e), types=False)
                if h == 1 and co * g * w <= 40: add(dict(k="inter1", ch=co * g, w=w, g=g), types=False)
    seq = []
    for _ in range(c.scale(90, 600)):
        g = rng.choice([1, 1, 2]); inter = rng.random() < .7
        fs = [rng.randint(1, 3), rng.randint(1, 3)]; ds = [rng.randint(2, 5), rng.randint(2, 5)]; p = rng.randint(0, 1)
        F = rng.randint(1, 2) * (g * g if inter else 1); C = rng.randint(1, 2)
        st = [g, g] if inter or rng.random() < .5 else [g, rng.choice([1, 2])]
        if any(d + 2 * p < f for d, f in zip(ds, fs)): continue
        o = [out(d, f, s, p) for d, f, s in zip(ds, fs, st)]; n = p2up(max(F * prod(o), C * prod(ds)))
        if n > 32: continue
        n *= rng.choice([1, 1, 2])
        e = dict(k="conv2cseq", filter=[F, C] + fs, data=[1, C] + ds, strides=st, pad=p, n=n, inter=inter)
        add(e, nd=[4, 5, 5, 3, 2] if inter else [4, 5, 3, 2])
    layouts.run(c, cmds, "convolution layout is not the convolution's matrix")
