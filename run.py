#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] : decide one property on /repo's tree."""
import importlib, os, sys
if "PYTHONHASHSEED" not in os.environ:  # runs are reproducible from VERIF_SEED alone
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/tools", V + "/checks"]
sys.dont_write_bytecode = True
if "--tier" in sys.argv: os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
import hv
p = sys.argv[1]
m = importlib.import_module(p)
hv.main(p, m.run, getattr(m, "LEVEL", "model_checking"))
