"""Random well-formed MLIR programs (text)."""

class Gen:
    """Builds one function; values are tracked by kind in nested scopes."""
    def __init__(self, rng, ity="i8"):
        self.r, self.ity = rng, ity
        self.n = 0
        self.out = []
        self.ind = 1
        self.scopes = [dict(v=[], ix=[], mem=[], ten=[], b=[])]
        self.used = set()

    def fresh(self, p="v"):
        self.n += 1
        return f"%{p}{self.n}"

    def emit(self, s):
        self.out.append("  " * self.ind + s)

    def add(self, kind, x):
        self.scopes[-1].setdefault(kind, []).append(x)
        return x

    def all(self, kind):
        return [x for s in self.scopes for x in s.get(kind, [])]

    def pick(self, kind):
        l = self.all(kind)
        if not l: return None
        # prefer recent values: longer dependence chains
        return self.r.choice(l[-6:]) if self.r.random() < .6 else self.r.choice(l)

    def push(self): self.scopes.append(dict()); self.ind += 1
    def pop(self): self.scopes.pop(); self.ind -= 1

    def const(self, v, ty=None):
        x = self.fresh("c")
        self.emit(f"{x} = arith.constant {v} : {ty or self.ity}")
        return x

    def val(self):
        v = self.pick("v")
        if v is None or self.r.random() < .12:
            v = self.add("v", self.const(self.r.choice([0, 1, -1, 2, 3, 5, -7, 100])))
        return v

    def arith(self, ops=("addi", "subi", "muli")):
        a, b = self.val(), self.val()
        x = self.fresh()
        self.emit(f"{x} = arith.{self.r.choice(ops)} {a}, {b} : {self.ity}")
        self.add("v", x)
        return x

    def text(self):
        return "\n".join(self.out)

def mshape(sh, ty):
    return "x".join(map(str, sh)) + ("x" if sh else "") + ty
