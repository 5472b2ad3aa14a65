#!/usr/bin/env python3
"""plant.py ID... : confirm seeded bugs (build, stable tests, demo) and run the
property's quick check against each; /repo is restored afterwards."""
import json, os, subprocess, sys, time
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def clean(): return not sh(f"git -C {R} status --porcelain").stdout.strip()
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    def walk(x):
        if isinstance(x, list) and x and all(isinstance(i, str) for i in x): return x
        if isinstance(x, dict):
            for v in x.values():
                r = walk(v)
                if r and len(r) > 100: return r
        return None
    return set(walk(base))
def tests():
    o = f"/tmp/plant-{os.getpid()}.json"
    sh(f"bash /opt/vp/test.sh {o}")
    d = json.load(open(o)); os.remove(o)
    s = json.dumps(d)
    passed = d.get("passed", d)
    ps = set(passed if isinstance(passed, list) else [k for k, v in passed.items() if v in ("passed", True, "pass")])
    return stable() - ps
rows = []
extra = [a for a in sys.argv[1:] if a.startswith("-")]
for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json"))
    assert clean(), "dirty /repo"
    row = {"id": i, "property": m["property"]}
    if "--skip-clean" not in extra:
        row["demo_clean"] = sh(f"bash {d}/demo.sh", cwd=R).returncode
    try:
        a = sh(f"git -C {R} apply {d}/patch.diff")
        if a.returncode: row["apply"] = a.stderr; rows.append(row); print(row); continue
        b = sh("bash /opt/vp/build.sh", cwd=R); row["build"] = b.returncode
        if b.returncode: row["build_err"] = b.stdout[-600:]
        row["tests_lost"] = sorted(tests())[:4]
        dm = sh(f"bash {d}/demo.sh", cwd=R); row["demo_bug"] = dm.returncode; row["demo_out"] = (dm.stdout + dm.stderr)[-200:]
        if "--nocheck" not in extra:
            t = time.time(); c = sh(f"python3 {V}/run.py {m['property']}", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            row["check"] = c.returncode; row["check_s"] = round(time.time() - t); row["check_out"] = (c.stdout + c.stderr)[:260]
    finally:
        sh(f"git -C {R} checkout -- .")
    rows.append(row); print(json.dumps(row, indent=1), flush=True)
sh("bash /opt/vp/build.sh", cwd=R)
ok = [r for r in rows if r.get("demo_clean", 0) == 0 and r.get("build") == 0 and not r.get("tests_lost") and r.get("demo_bug")]
print("count:", len(ok), "caught:", [r["id"] for r in ok if r.get("check") == 1], "missed:", [r["id"] for r in ok if r.get("check") != 1],
      "invalid:", [r["id"] for r in rows if r not in ok])
