#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, os
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
note = ("Every case is a behaviour of the TLA+ machine (its own invariants checked by TLC on the way) and what the real "
        "macro did on it is accepted or refused by TLC. %s Trusts rustc, leptos and the kit; bounded by the cases explored.")
checks = []
for p in props:
    i = p["id"]
    pl = plans.PLANS[i]
    checks.append(dict(
        property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
        thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
        technique=pl.get("technique", "TLA+ specification of the macro checked with TLC; TLC-generated calls replayed into the "
                         "real macro and the recorded behaviour validated by TLC against the specification"),
        level="model_checking", level_note=note % pl.get("note", "")))
json.dump(dict(version=1, setup_cmd="sh bin/setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the macro's input, output and errors are all observable from outside."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
