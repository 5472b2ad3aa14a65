"""Reads the repository's BUILD files: the rules of each, with the .bzl macros expanded."""
import os, re

REPO = "/repo"


class Stub:
    def __getattr__(self, n): return Stub()
    def __call__(self, *a, **k): return None


def load_all(top="lib"):
    rules = []
    for d, _, fs in os.walk(os.path.join(REPO, top)):
        f = next((x for x in ("BUILD", "BUILD.bazel") if x in fs), None)
        if f:
            rules += load_build(os.path.relpath(os.path.join(d, f), REPO))
    return rules


def load_build(path):
    pkg = os.path.dirname(path)
    out = []

    class Env(dict):
        def __missing__(self, k):
            import builtins
            if hasattr(builtins, k):
                return getattr(builtins, k)
            if k == "native":
                return NS()
            if re.match(r"[A-Z_]+$", k):
                raise KeyError(k)
            return lambda *a, **kw: out.append((pkg, k, kw))

    class NS:
        def __getattr__(self, k): return env[k]

    def glob(pats, exclude=(), **k):
        import fnmatch
        r = [f for f in os.listdir(os.path.join(REPO, pkg)) if any(fnmatch.fnmatch(f, p) for p in pats)]
        return sorted(f for f in r if not any(fnmatch.fnmatch(f, p) for p in exclude))

    env = Env(glob=glob, select=lambda d, **k: d.get("//conditions:default", []), Label=lambda x: x,
              package=lambda **k: None, exports_files=lambda *a, **k: None, licenses=lambda *a, **k: None,
              struct=Stub(), fail=lambda *a: (_ for _ in ()).throw(ValueError(a)))

    def load(label, *names, **kw):
        m = re.match(r"(?:@heir)?//([^:]*):(.*\.bzl)$", label)
        if not m:
            return
        exec(compile(open(os.path.join(REPO, m[1], m[2])).read(), label, "exec"), env)

    env["load"] = load
    exec(compile(open(os.path.join(REPO, path)).read(), path, "exec"), env)
    return out
