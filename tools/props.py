#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), na=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, state=state, observe=observe, na=na, note=note))

I, H, C, S, F, PR = "inputs", "histories", "configurations", "schedules", "fault_sequences", "programs"

exec(open(os.path.join(ROOT, "tools", "propdata.py")).read())

TECH = "abstract interpretation of go/ssa (disjunctive predicate/interval/heap-summary domain, fixpoint) against a Go-source specification that is analysed, never run"
NOTE = ("Sound over the stated input classes up to the listed models of standard-library calls and the summary "
        "abstractions of DESIGN.md; a path the domain cannot decide exactly is recorded as undecided and raises no alarm. "
        "On the committed tree nothing is undecided.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                 anchors=dict(files=p["files"],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                              mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=list(p["observe"]), hook_needed=None))
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
                       thorough_cmd="bash check.sh %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=TECH, level="other", level_note=(p["note"] + " " if p["note"] else "") + NOTE))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="One analyser (analyzer/) and one specification package (harness/); see DESIGN.md. known_findings.json lists repaired defects and known findings.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
