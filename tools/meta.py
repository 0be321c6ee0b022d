#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, tests, files, mech, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  note=note, na=na, observe=observe))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

TRUST = ("Obligations are generated from /repo's current source (clang AST) on every run and discharged by z3 for all inputs; "
         "callees are inlined, loop invariants inferred and then checked inductively. Trusted: the clang AST dump and the translator, the "
         "models of the standard library used, z3; double is treated as a mathematical real; strings are opaque; allocation never fails; termination is not proved. ")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["tests"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
import re
BOUNDED = "Clauses marked BGOAL in the contract file are bounded: executed on the real code with generated inputs (ASan/UBSan), not proved. "
def goals(id):
    t = open(os.path.join(HERE, "contracts", id + ".cpp")).read()
    return len(re.findall(r"^GOAL\(", t, re.M)), len(re.findall(r"^BGOAL\(", t, re.M))
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                       technique="contract-based deductive verification: VCs generated from the real C++ source, discharged by z3",
                       level="proof" if goals(p["id"])[0] >= goals(p["id"])[1] else "other", level_note=TRUST + (BOUNDED if goals(p["id"])[1] else "") + (p["note"] or "")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo. See DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
