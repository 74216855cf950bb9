#!/usr/bin/env python3
"""Write MANIFEST.json: one check per props/pNN.py, everything else not_applicable."""
import json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason, for those that genuinely cannot be decided this way
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = V + "/props/%s.py" % p["id"].lower()
    if os.path.exists(f):
        src = open(f).read()
        spec = ast.get_docstring(ast.parse(src)) or ""
        spec = spec[spec.find("(spec/") + 1:].split(")")[0] if "(spec/" in spec else "spec/"
        mach = "machine(" in src
        tech = ("TLA+ state machine checked with TLC; its transitions replayed into the crate and histories recorded from the crate checked against it" if mach
                else "TLA+ functional specification checked with TLC; its enumerated cases replayed into the crate and inputs/outputs recorded from the crate checked against it")
        note = ("%s. TLC exhausts the specification's bounded instance and checks its laws; every transition or case it enumerates is executed on the crate, "
                "and seeded random executions of the crate beyond those bounds are each decided by TLC. Bounded/sampled, not a proof; trusts TLC, the harness in harness/src and the Rust toolchain." % spec)
        checks.append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check " + p["id"],
                           technique=tech, level="model_checking", level_note=note))
    else: na.append(dict(property=p["id"], reason=NA.get(p["id"], "specification not written yet")))
m = dict(version=1, setup_cmd="cd harness && cargo build --offline --locked", checks=checks, not_applicable=na,
         notes="TLA+ (TLC). Specifications in spec/, conformance harness in harness/, runner in lib/mbv.py, one driver per property in props/. No hooks in /repo were needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
