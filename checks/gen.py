#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import meta, spec
claimed = [p for p in meta.PROPS if p["id"] in spec.PROPS]
na = [(p["id"], "no solver-based check could be completed for it") for p in meta.PROPS if p["id"] not in spec.PROPS]
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in meta.PROPS + [n[0] for n in meta.NA]: h.write(json.dumps(p) + "\n")
checks = []
for p in claimed:
    s = spec.PROPS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "technique": "symbolic execution of the compiled LLVM IR with z3" + (" (nonlinear real arithmetic)" if any("--real" in r.get("opts", []) for r in s["runs"]) else " (bit-vectors)"),
                   "level": "model_checking",
                   "level_note": f"Every path and assertion decided by z3 for all inputs within: {s['bounds']}. Outside: {s.get('outside', '')}. Trusted: rustc's IR, the executor in /verif/symex, z3, " + ("floating point read as exact reals." if any("--real" in r.get("opts", []) for r in s["runs"]) else "allocation never failing.")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks: the harness crates use the public interface only", "source_commits": []}, "checks": checks,
     "not_applicable": [{"property": i, "reason": r} for i, r in na] + [{"property": p["id"], "reason": r} for p, r in meta.NA]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(m["not_applicable"]), "not applicable")

# ---- DESIGN.md: generated sections
import re
d = open(os.path.join(V, "DESIGN.md")).read()
def put(d, name, text):
    return re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{text}\n<!-- /{name} -->", d, flags=re.S)
t = ["## Properties and how each is decided", "Method for all: symbolic execution as above; oracle: the specification written in the harness. (q) quick and thorough, (t) thorough only.", ""]
for p in claimed:
    s = spec.PROPS[p["id"]]
    t += [f"### {p['id']} {p['title']}", p["statement"], "", f"Bounds: {s['bounds']}. Outside: {s.get('outside', '-')}.", ""]
    for r in s["runs"]:
        t.append(f"- `{r['fam']}::{r['h']}({', '.join(map(str, r['p']))})` ({r.get('tier', 'q')}) {r['b']}" + (" [exact reals]" if "--real" in r.get("opts", []) else ""))
    t.append("")
t += ["### Not applicable"] + [f"- {p['id']} {p['title']}: {r}" for p, r in meta.NA] + [f"- {i}: {r}" for i, r in na]
d = put(d, "properties", "\n".join(t))
t = ["## Planted bugs and the checks that catch them", "`seeded/<id>`; result of the property's quick check.", ""]
res = {}
f = os.path.join(H, "caught.json")
if os.path.exists(f): res = json.load(open(f))
sd = os.path.join(V, "seeded")
for x in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, x, "meta.json")))
    t.append(f"- `{x}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}. **{res.get(x, 'not run')}**")
if os.path.isdir(sd): d = put(d, "seeded", "\n".join(t))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
