"""Witnesses for BigNat.tla: they decide nothing, TLC checks every one."""
def limbs(n):
    assert n >= 0
    r = []
    while n: r.append(n & 4095); n >>= 12
    return r
def mulw(a, b, m): return dict(q=limbs(a * b // m), r=limbs(a * b % m))
def poww(b, e, m):
    """b < m"""
    bits = [int(x) for x in bin(e)[2:]] if e else []
    w, acc = [], 1
    for t in bits:
        q1, r1 = divmod(acc * acc, m)
        q2, r2 = divmod(r1 * b, m)
        w.append([limbs(q1), limbs(r1), limbs(q2) if t else [], limbs(r2) if t else []])
        acc = r2 if t else r1
    return dict(b=limbs(b), e=limbs(e), m=limbs(m), bits=bits, w=w), acc
def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71):
        if a % n == 0: continue
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def factor(n):
    import random
    from math import gcd
    if n < 2: return []
    for p in (2, 3, 5, 7, 11, 13):
        if n % p == 0:
            return [p] + factor(n // p)
    if is_prime(n): return [n]
    r = random.Random(n)
    while True:
        c, x = r.randrange(1, n), r.randrange(n)
        y, d = x, 1
        while d == 1:
            x = (x * x + c) % n
            y = (y * y + c) % n; y = (y * y + c) % n
            d = gcd(abs(x - y), n)
        if d != n: return sorted(factor(d) + factor(n // d))
def pratt(n, memo=None):
    """Tree proving n prime: [n, g, factors with multiplicity, powers g^((n-1)/p), g^(n-1)], leaves small."""
    if n < 2 ** 15: return dict(n=limbs(n), small=n)
    fs = sorted(factor(n - 1))
    ds = sorted(set(fs))
    g = 2
    while any(pow(g, (n - 1) // p, n) == 1 for p in ds): g += 1
    top, _ = poww(g, n - 1, n)
    subs = []
    for p in ds:
        pw, v = poww(g, (n - 1) // p, n)
        subs.append(dict(p=pratt(p), pw=pw, v=limbs(v)))
    return dict(n=limbs(n), small=0, g=limbs(g), top=top, subs=subs, fs=[limbs(p) for p in fs])
