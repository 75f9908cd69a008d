#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand; not part of a check)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, Fs, P, S = "inputs", "histories", "crash_points", "fault_sequences", "programs", "schedules"
SCOPE = (" Scope: polynomials whose real roots the installed RCF back end isolates correctly, and at most five "
         "sign-determination polynomials.")
P_ = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration",
         state=None):
    P_.append(dict(
        p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
           "why_tests_cant": why,
           "anchors": {"files": files, "state": state or [],
                       "mechanism": [{"name": n, "where": w} for n, w in mech],
                       "observe_at": observe, "hook_needed": None}},
        m={"property": id, "quick_cmd": "python3 check.py %s --tier quick" % id,
           "thorough_cmd": "python3 check.py %s --tier thorough" % id,
           "evidence_file": "evidence/%s.json" % id,
           "technique": technique, "level": level, "level_note": note}))


MON = "runtime monitor: "
NOTE = ("Holds on every execution observed by the monitor; not a proof. The oracle is independent exact arithmetic "
        "in CPython; trusts Jython/sympy/z3 as installed. ")

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for e in P_:
        assert len(e["p"]["title"]) <= 80, e["p"]["title"]
        f.write(json.dumps(e["p"]) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -m compileall -q lib check.py",
       "checks": [e["m"] for e in P_ if e["p"]["id"] not in NA],
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
       "notes": NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
