#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both, so that they stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "src/tree/generic.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s} if isinstance(s, str) else s for s in state]
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, note))

SCHED = "stateless model checking of the real code: exhaustive preemption-bounded schedule enumeration"
CN = ("Every execution of the listed scenarios within the stated bounds is run on the real compiled tree and judged; "
      "complete below the bounds reported per pass in the evidence, no claim above them. Trusts the engine (engine/mc.c), "
      "the stand-ins for seize, parking_lot and portable-atomic, and rustc's instrumentation pass.")
exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build the unmodified crate, with its dependencies replaced by Cargo patches and rustc's own instrumentation", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
                 "technique": t, "level": "model_checking", "level_note": n} for p, t, n in P if p["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
d = open(os.path.join(ROOT, "DESIGN.md")).read()
a, b = "<!-- properties: generated by tools/mkprops.py -->\n", "<!-- end of properties -->"
if a in d:
    i, j = d.index(a) + len(a), d.index(b)
    t = "".join(f"* **{p['id']} {p['title']}.** {p['statement']}\n  *Decided by* {t}.\n  *Over* {p['quantifier']['text']}.\n  *Out of the tests' reach because* {p['why_tests_cant']}.\n" for p, t, n in P)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(d[:i] + t + d[j:])
