"""Runs in heir's Python: the real front end on Python source, and CPython on
the same source.  One JSON command {src, name, inputs} per line on stdin, one
answer per line on stdout."""
import json, sys, types as pytypes
import heir                                    # installs the integer typing hook
import numpy as np
from numba.core import compiler
from numba.core.registry import cpu_target
from numba.core.typed_passes import type_inference_stage
from heir.mlir import types as ht
from heir.mlir.types import parse_annotations
from heir.mlir_emitter import TextualMlirEmitter
from heir.interfaces import CompilerError, InternalCompilerError

# ways in which the pipeline says no to a program
REFUSALS = (CompilerError, InternalCompilerError)

def front(fn):
    ir = compiler.run_frontend(fn)
    args, secret, ret = parse_annotations(fn.__annotations__)
    tc, gc = cpu_target.typing_context, cpu_target.target_context
    tc.refresh(); gc.refresh()
    typemap, restype, _, _ = type_inference_stage(tc, gc, ir, args, None)
    return TextualMlirEmitter(ir, secret, typemap, restype, "main").emit()

def plain(v):
    if isinstance(v, ht.MLIRType): return plain(v.value)
    if isinstance(v, np.ndarray): return [plain(x) for x in v.tolist()]
    if isinstance(v, (bool, np.bool_)): return [int(v)]
    if isinstance(v, float): return [int(v)] if v == int(v) else None
    return [int(v)]

def cpython(fn, inputs, kinds):
    res = []
    for x in inputs:
        a = [np.array(v, dtype=np.int64) if k == "t" else float(v[0]) if k == "f" else bool(v[0]) if k == "b" else v[0] for v, k in zip(x, kinds)]
        try: r = plain(fn(*a))
        except Exception as e: r = None
        if r and isinstance(r[0], list): r = [z for y in r for z in y]
        res.append(r)
    return res

def answer(n, c):
    ns = {k: getattr(ht, k) for k in ("I1", "I8", "I16", "I32", "I64", "F32", "F64", "Secret", "Tensor")}
    out = {}
    try:
        exec(compile(c["src"], f"<program {n}>", "exec"), ns)
        fn = ns[c["name"]]
    except Exception as e:
        return dict(bad=f"{type(e).__name__}: {e}")
    out["py"] = cpython(fn, c["inputs"], c["kinds"])
    try: out["mlir"] = front(fn)
    except REFUSALS as e: out["err"] = f"{type(e).__name__}: {e.message}"
    except Exception as e: out["err"] = f"{type(e).__name__}: {e}"
    return out

if __name__ == "__main__":
    for n, line in enumerate(sys.stdin):
        print(json.dumps(answer(n, json.loads(line))), flush=True)
