#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements can be edited in one place)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
exec(open(__file__.replace("gen_properties.py", "properties_src.py")).read())
with open(__file__.replace("gen_properties.py", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
