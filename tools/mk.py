#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({"observe_at": observe} if observe else {}), hook_needed=None)))
    P[-1]["_note"] = note

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(root, "tools", "table.py")).read())

claimed = [p for p in P if p["_note"]]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
m = dict(version=1, setup_cmd="./run.sh build",
         checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"./run.sh {p['id']} thorough",
                      technique="deterministic simulation with fault injection", level="exploration", level_note=p["_note"]) for p in claimed],
         not_applicable=NA,
         notes="All seams are stand-in crates under /verif/shims (transcript, rayon, VM, merkle/field libraries) patched in by the harness; /repo carries no hooks.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
