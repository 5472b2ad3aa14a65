#!/usr/bin/env python3
"""Builds an include overlay over apt's LLVM/MLIR 20 headers in OUT.

HEIR is pinned to a newer MLIR.  The overlay is a symlink farm over the apt
headers in which a few files are replaced by copies with *additive* edits: API
spellings of the newer MLIR that HEIR's sources use, each a thin forwarder to
the MLIR 20 equivalent.  /repo's sources themselves are compiled unmodified.
"""
import os, re, sys, shutil

OUT = os.path.abspath(sys.argv[1])
LLVM = "/usr/lib/llvm-20/include"
INC = OUT + "/inc"

def farm(src, dst):
    src = os.path.realpath(src)
    for d, ds, fs in os.walk(src, followlinks=True):
        r = os.path.relpath(d, src)
        os.makedirs(os.path.join(dst, r), exist_ok=True)
        for f in fs:
            p = os.path.join(dst, r, f)
            if not os.path.lexists(p):
                os.symlink(os.path.realpath(os.path.join(d, f)), p)

def edit(path, *subs, append=None):
    p = f"{INC}/{path}"
    s = open(p).read()
    if os.path.lexists(p):
        os.unlink(p)
    for a, b in subs:
        if a not in s:
            sys.exit(f"overlay: anchor not found in {path}: {a!r}")
        s = s.replace(a, b, 1)
    if append:
        i = s.rindex("#endif")
        s = s[:i] + append + "\n" + s[i:]
    open(p, "w").write(s)

def new(path, text):
    p = f"{INC}/{path}"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        os.unlink(p)
    open(p, "w").write(text)

def main():
    if os.path.isdir(OUT):
        shutil.rmtree(OUT)
    os.makedirs(INC)
    for x in ("llvm", "llvm-c", "mlir", "mlir-c"):
        farm(f"{LLVM}/{x}", f"{INC}/{x}")
    for x in ("llvm", "mlir"):
        os.makedirs(f"{OUT}/shim/{x}")
        os.symlink(INC, f"{OUT}/shim/{x}/include")
    os.makedirs(f"{OUT}/shim/include")
    os.symlink("/usr/include/isl", f"{OUT}/shim/include/isl")
    exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "edits.py")).read(), "edits.py", "exec"),
         dict(edit=edit, new=new, INC=INC, OUT=OUT, re=re, os=os, COMPAT=os.path.dirname(os.path.abspath(__file__)), __name__="edits"))

main()
