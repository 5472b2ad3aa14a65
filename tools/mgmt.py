"""Typed programs (level, dimension, scale) for Mgmt.tla."""
import re
from norm import Unsupported

def is_secret(t): return t["k"] == "secret"

class Tree:
    def __init__(self, m, main="main"):
        self.ids, self.an, self.pl, self.sec, self.con, self.m = {}, [], [], [], [], m.get("mgmt", {})
        self.fs = {}
        fns = {o["a"]["sym_name"]: o for o in m["r"][0][0]["ops"] if o["op"] == "func.func" and o["r"] and o["r"][0]}
        for k, o in fns.items():
            b = o["r"][0][0]
            self.fs[k] = dict(args=[self.v(x, t) for x, t in zip(b["args"], b["t"])], body=self.ops(b["ops"]),
                              ret=[self.v(x, t) for x, t in zip(b["ops"][-1]["in"], b["ops"][-1]["it"])])
        self.main = self.fs[main]
    def v(self, x, t=None):
        n = self.ids.get(x)
        if n is None:
            n = self.ids[x] = len(self.an) + 1
            self.an.append(self.m.get(str(x), [])); self.pl.append(False); self.con.append(False); self.sec.append(bool(t) and is_secret(t))
        return n
    def plain(self, y): return self.pl[y - 1] or (not self.an[y - 1] and not self.sec[y - 1])
    def ops(self, l):
        r = []
        for o in l:
            i = [self.v(x, t) for x, t in zip(o["in"], o["it"])]; u = [self.v(x, t) for x, t in zip(o["out"], o["t"])]
            x = dict(o=o["op"], i=i, u=u, r=[])
            for g in o["r"]:
                if len(g) > 1: raise Unsupported("cfg")
                if g: x["r"].append(dict(args=[self.v(y, t) for y, t in zip(g[0]["args"], g[0]["t"])], ops=self.ops(g[0]["ops"])))
            if o["op"] == "mgmt.init":
                for y in u: self.pl[y - 1] = True
            if o["op"] == "arith.constant" or o["op"] == "secret.conceal": self.con[u[0] - 1] = True
            if o["op"] == "secret.generic":
                for y, z in zip(u, x["r"][0]["ops"][-1]["i"]):
                    if self.con[z - 1] or self.plain(z): self.con[y - 1] = True
            elif u and i and not x["r"] and o["op"] != "mgmt.init" and o["op"] != "func.call" and all(self.plain(y) for y in i):
                for y in u:
                    if not self.sec[y - 1]: self.pl[y - 1] = True
            if o["op"] == "mgmt.level_reduce": x["drop"] = o["a"].get("levelToDrop", 1)
            if o["op"] == "scf.for": x["init"] = i[3:]
            if o["op"] == "affine.for": x["init"] = i[len(i) - o["a"]["operandSegmentSizes"][2]:]
            if o["op"] == "func.call": x["fn"] = o["a"]["callee"]
            r.append(x)
        return r
    def flat(self):
        """the operations of a straight-line program with the arguments of its
        regions named by what they are, or None"""
        sub, out = {}, []
        def go(l):
            for o in l:
                s = [sub.get(x, x) for x in o["i"]]
                if o["o"] == "secret.generic":
                    for a, x in zip(o["r"][0]["args"], s): sub[a] = x
                    if not go(o["r"][0]["ops"]): return False
                    for y, x in zip(o["u"], o["r"][0]["ops"][-1]["i"]): sub[y] = sub.get(x, x)
                elif o["r"] or len(o["u"]) > 1 or o["o"] == "func.call": return False
                elif o["o"] in ("secret.yield", "func.return"): pass
                else: out.append(dict(o=o["o"], i=s, u=o["u"]))
            return True
        if not go(self.main["body"]): return None
        return out, [sub.get(x, x) for x in self.main["ret"]]
    def rec(self):
        return dict(body=self.main["body"], an=self.an, pl=self.pl, sec=self.sec, con=self.con, args=self.main["args"], ret=self.main["ret"],
                    fs={k: dict(args=f["args"], ret=f["ret"]) for k, f in self.fs.items()})

def params(m, t=None):
    """moduli of the scheme parameters of a module"""
    for k in ("bgv.schemeParam", "ckks.schemeParam"):
        s = m["a"].get(k)
        if s:
            q = [int(x) for x in re.search(r"Q = \[([^\]]*)\]", s).group(1).split(",")]
            f = lambda n: (lambda x: int(x.group(1)) if x else None)(re.search(n + r" = (\d+)", s))
            return dict(q=q, t=f("plaintextModulus"), ld=f("logDefaultScale"))
