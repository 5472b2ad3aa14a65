"""Encryption parameters: ring dimensions, primes, and the sets built from them (Params.tla)."""
from big import limbs, pratt, is_prime
_memo = {}
def cert(n):
    if n not in _memo: _memo[n] = pratt(n) if is_prime(n) else dict(n=limbs(n), small=1)     # no certificate: rejected
    return _memo[n]
SEC = dict(zip((1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072), (26, 53, 106, 214, 430, 868, 1747, 3523)))
def run(c):
    c.build("hnoise")
    rng, cmds, mk = c.rng, [], []
    def add(cmd, f): cmds.append(cmd); mk.append(f)
    def pos(m): return -1 if m is None else m
    # ---- the security table: every size at and around every bound
    for n, q in SEC.items():
        for bits in {1, q - 1, q, q + 1, q // 2}:
            for mn in (0, 1, n // 2, n // 2 + 1, n, n - 1, n + 1):
                if not any(s >= mn and t >= bits for s, t in SEC.items()): continue
                add(dict(c="ringdim", log=bits, min=mn), lambda o, b=bits, m=mn: dict(t="ringdim", key=f"ringdim/{b}/{m}", bits=b, min=m, r=o["r"]))
    for l in range(0, 12):
        add(dict(c="dnum", level=l), lambda o, l=l: dict(t="dnum", key=f"dnum/{l}", level=l, r=o["r"]))
    # ---- primes, with those already taken in the way
    for i in range(c.scale(60, 500)):
        n = 1 << rng.randint(10, 17)
        bits = rng.randint(20, 60)
        have, k = [], rng.randrange(0, 6)
        x = (1 << bits) + 1
        x += (-(x - 1)) % (2 * n)
        while len(have) < k and x < (1 << 62):
            if is_prime(x): have.append(x)
            x += 2 * n
        if rng.random() < .3 and have: have.pop(rng.randrange(len(have)))
        rng.shuffle(have)
        add(dict(c="prime", bits=bits, n=n, have=[str(h) for h in have]),
            lambda o, b=bits, n=n, h=have: dict(t="prime", key=f"prime/{b}/{n}/{len(h)}", bits=b, n=n, have=[limbs(x) for x in h], r=limbs(int(o["r"])), cert=cert(int(o["r"]))))
    # ---- conservative sets
    for i in range(c.scale(120, 400)):
        lv = rng.randrange(0, 24); sl = rng.choice([1, 8, 512, 513, 1024, 2048, 4096, 4097, 16384, 32768, 65536])
        pk, ext = rng.randrange(2), rng.randrange(2)
        add(dict(c="cons", level=lv, t=65537, slots=sl, pk=pk, ext=ext),
            lambda o, lv=lv, sl=sl, pk=pk, ext=ext: dict(t="cons", key=f"cons/{lv}/{sl}", level=lv, slots=sl, wpk=pk, wext=ext, rlevel=o["level"],
                                                        **{k: o[k] for k in ("n", "dnum", "pk", "ext")},
                                                        logqi=[norm(v) for v in o["logqi"]], logpi=[norm(v) for v in o["logpi"]]))
    def norm(v):
        m, e = list(v["m"]), v["e"]
        while m and m[0] == 0: m.pop(0); e += 1
        return dict(m=m, e=e)
    base = lambda o: dict(qi=[limbs(int(x)) for x in o["qi"]], pi=[limbs(int(x)) for x in o["pi"]], logqi=o["logqi"], logpi=o["logpi"], n=o["n"], dnum=o["dnum"],
                          pk=o["pk"], ext=o["ext"], level=o["level"], certs=[cert(int(x)) for x in sorted(set(o["qi"] + o["pi"]))])
    def distinct_ok(o): return True
    # ---- concrete BGV sets: equal sizes, sizes at the edge of a ring, plaintext modulus in the way
    for i in range(c.scale(90, 900)):
        L = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10])
        k = rng.random()
        if k < .35: req = [rng.randint(18, 60)] * L
        elif k < .7: req = [rng.randint(15, 60) for _ in range(L)]
        else:        # total right at a bound of the table
            d = 3 if L > 4 else 2 if L > 1 else 1
            kp = -(-L // d)
            q = rng.choice([53, 106, 214, 430, 868])
            b = max(20, min(59, q // (L + kp)))
            req = [b] * L
        sl = rng.choice([1, 8, 512, 1024, 1024, 2048, 4096, 8192])
        t = rng.choice([65537, 257, 786433, 4295294977])
        if rng.random() < .35:       # the first prime the search would meet
            n = rng.choice([1024, 2048, 4096, 8192, 16384]); n = max(n, 2 * sl)
            x = (1 << max(20, req[0])) + 1
            while not is_prime(x): x += 2 * n
            t = x
        pk, ext = rng.randrange(2), rng.randrange(2)
        add(dict(c="conc", logqi=req, t=t, slots=sl, pk=pk, ext=ext),
            lambda o, req=req, t=t, sl=sl, pk=pk, ext=ext: dict(base(o), t="conc", key=f"conc/{'-'.join(map(str, req))}/t{t}/s{sl}", req=req, plain=limbs(t), pt=limbs(int(o["t"])),
                                                               slots=sl, wpk=pk, wext=ext))
    # ---- CKKS sets
    for i in range(c.scale(70, 700)):
        scale = rng.randint(28, 57); first = rng.choice([scale, scale + 1, min(60, scale + 10), 60, 58]); first = max(first, scale)
        lv = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12]); sl = rng.choice([1, 512, 1024, 4096, 8192, 16384]); red = rng.randrange(2)
        pk, ext = rng.randrange(2), rng.randrange(2)
        if scale < 34: sl = min(sl, 4096); lv = min(lv, 5)
        add(dict(c="ckks", first=first, scale=scale, levels=lv, slots=sl, red=red, pk=pk, ext=ext),
            lambda o, f=first, s=scale, lv=lv, sl=sl, red=red, pk=pk, ext=ext: dict(base(o), t="ckks", key=f"ckks/{f}/{s}/L{lv}/s{sl}/{'reduced' if red else 'fixed'}", first=f, wscale=s,
                                                               scale=o["scale"], levels=lv, slots=sl, wpk=pk, wext=ext, near=max(1, s - 17 - 8) if not red else 3))
    out = c.drive("hnoise", cmds)
    recs = []
    for x, f, o in zip(cmds, mk, out):
        if "crash" in o: c.fail(x["c"] + "/" + "/".join(str(v) for k, v in x.items() if k != "c"), x, "crash: " + o["crash"][:200]); continue
        c.count("n_" + x["c"])
        try: recs.append(f(o))
        except (ValueError, RecursionError) as e:
            c.fail(x["c"] + "/" + str(x), dict(cmd=x, out=o), f"not primes: {e}")
    c.check("Params", recs, what="parameters")
