#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, tech, note, level="model_checking", observe=(), state=(), na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
        why=" ".join(why.split()), files=files, mech=[dict(name=a, where=b) for a, b in mechanism], observe=list(observe),
        state=list(state), tech=tech, note=" ".join(note.split()), level=level, na=na))

exec(open(V + "/tools/props_data.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=p["mech"])
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"],
                                why_tests_cant=p["why"], anchors=a)) + "\n")
M = dict(version=1, setup_cmd="python3 tools/hbuild.py", checks=[], not_applicable=[])
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]: M["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
    assert os.path.exists(f"{V}/checks/{p['id']}.py"), p["id"]
    M["checks"].append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
        technique=p["tech"], level=p["level"], level_note=p["note"]))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
# DESIGN.md from its template
notes = dict(l.split(": ", 1) for l in open(V + "/design/notes.txt") if ": " in l)
caught = dict(l.split(None, 1) for l in open(V + "/design/caught.txt") if l.strip())
def props():
    r = ""
    for p in sorted(P, key=lambda p: p["id"]):
        r += f"### {p['id']} — {p['title']}\n\n"
        if p["na"]: r += "Not applicable: " + p["na"] + "\n\n"; continue
        r += f"*How:* {p['note']}\n*Technique:* {p['tech']}.\n*Explored:* {notes.get(p['id'], 'see the evidence file.').strip()}\n*Why tests cannot:* {p['why']}\n\n"
    return r.rstrip()
def fixes():
    return "\n".join(" * " + l.strip() for l in open(V + "/known-findings.txt") if l.strip() and not l.startswith("#"))
def seeded():
    r = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        r += f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, 'not run').strip()} |\n"
    return r.rstrip()
t = open(V + "/design/DESIGN.tmpl.md").read()
for k, f in (("PROPS", props), ("FIXES", fixes), ("SEEDED", seeded)): t = t.replace(f"@@{k}@@", f())
t = t.replace("@@SPEC_ROWS@@\n", "").replace("@@DECISIONS@@\n", "")
open(V + "/DESIGN.md", "w").write(t)
