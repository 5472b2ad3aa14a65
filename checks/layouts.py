"""Shared by C04, C05 and C27: layout expressions, their queries, and the run."""
import os, re, subprocess
from math import gcd, prod
def p2up(n):
    p = 1
    while p < n: p *= 2
    return p
def rnd_con(rng, d, r, sz=4, mods=True):
    n = d + r
    lo = [rng.choice([0, 0, 0, -2]) for _ in range(n)]
    hi = [l + rng.randint(0, sz) for l in lo]
    co = lambda: [rng.randint(-2, 2) for _ in range(n)]
    eq = [co() + [rng.randint(-2, 3)] for _ in range(rng.choice([0, 0, 1]))]
    ge = [co() + [rng.randint(-1, 6)] for _ in range(rng.choice([0, 1, 2]))]
    ms = []
    for _ in range(rng.choice([0, 1, 1, 2]) if mods else 0):
        m = rng.choice([2, 3, 4, 5]); ms.append(co() + [rng.randint(0, 3), m, rng.randrange(m)])
    return dict(k="con", d=d, r=r, lo=lo, hi=hi, eq=eq, ge=ge, mods=ms)
def isl_str(c):
    n = c["d"] + c["r"]; v = [f"x{i}" for i in range(n)]
    lin = lambda k: " + ".join(f"{a}*{x}" for a, x in zip(k, v)) + f" + {k[n]}"
    cs = [f"{l} <= {x} <= {h}" for x, l, h in zip(v, c["lo"], c["hi"])]
    cs += [lin(e) + " = 0" for e in c["eq"]] + [lin(e) + " >= 0" for e in c["ge"]]
    cs += [f"({lin(m)}) mod {m[n + 1]} = {m[n + 2]}" for m in c["mods"]]
    return "{ [" + ", ".join(v[:c["d"]]) + "] -> [" + ", ".join(v[c["d"]:]) + "] : " + " and ".join(cs) + " }"
def isl(c): return dict(k="isl", s=isl_str(c), con=c)
def points(c):
    """Non-emptiness only: skip relations without points."""
    import itertools
    n = c["d"] + c["r"]
    for p in itertools.product(*[range(l, h + 1) for l, h in zip(c["lo"], c["hi"])]):
        v = lambda k: sum(a * x for a, x in zip(k, p)) + k[n]
        if all(v(e) == 0 for e in c["eq"]) and all(v(e) >= 0 for e in c["ge"]) and all(v(m) % m[n + 1] == m[n + 2] for m in c["mods"]): return True
    return False
C_HEAD = """#include <stdio.h>
#define min(a,b) ((a)<(b)?(a):(b))
#define max(a,b) ((a)>(b)?(a):(b))
#define floord(n,d) (((n)<0)?-((-(n)+(d)-1)/(d)):(n)/(d))
static void pt(int n,const int*a){for(int i=0;i<n;i++)printf("%d ",a[i]);}
#define S(...) do{int a_[]={__VA_ARGS__};printf("[");pt(sizeof a_/sizeof*a_,a_);printf("]");}while(0)
"""
def run_c(c, recs):
    """Compile and run the generated loop nests; cpts = the points they visit."""
    todo = [r for r in recs if "code" in r]
    if not todo: return
    f = f"{c.work}/loops.c"
    with open(f, "w") as o:
        o.write(C_HEAD)
        for i, r in enumerate(todo): o.write(f"static void f{i}(void){{\n{r['code']}\n}}\n")
        o.write("int main(void){\n" + "".join(f'f{i}();puts("");\n' for i in range(len(todo))) + "return 0;}\n")
    p = subprocess.run(["gcc", "-O0", "-w", "-o", f[:-2], f], capture_output=True, text=True)
    if p.returncode: raise RuntimeError(p.stderr[:2000])
    p = subprocess.run([f[:-2]], capture_output=True, text=True, timeout=120)
    for r, line in zip(todo, p.stdout.splitlines()):
        r["cpts"] = [[int(x) for x in g.split()] for g in re.findall(r"\[([^\]]*)\]", line)]
        del r["code"]
def run(c, cmds, what, types=()):
    c.build("hlayout")
    ans = c.drive("hlayout", [dict(r=e, q=q, **x) for e, q, x in cmds], timeout=600)
    recs = []
    for i, ((e, q, x), a) in enumerate(zip(cmds, ans)):
        r = dict(key=x.get("key") or f"{e['k']}/{i}", e=e, q=q, **a)
        if e["k"] == "conv2cseq" and "seq" in r: r["nd"] = x["nd"]
        recs.append(r)
    run_c(c, recs)
    c.count("relations", len(recs))
    kinds = {}
    for r in recs: kinds[r["e"]["k"]] = kinds.get(r["e"]["k"], 0) + 1
    c.notes["kinds"] = kinds
    c.sample({k: recs[0][k] for k in ("key", "e")})
    c.check("Layout", recs, what=what)
