"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the property modules.

Run as: bash tools/gen.sh"""

import importlib
import json
import os
import re

ROOT = os.environ["VERIF_ROOT"]
mods = sorted(f[:-3] for f in os.listdir(ROOT + "/harness/props") if re.match(r"c\d+\.py$", f))
skip = set(os.environ.get("SKIP", "").split())
props, checks, parts = [], [], []
for m in mods:
    if m.upper() in skip:
        continue
    P = importlib.import_module("harness.props." + m).PROP
    assert P.title and len(P.title) <= 80 and P.statement, m
    assert P.statement.count(". ") <= 2, (m, "more than three sentences")
    props.append(dict(
        id=P.pid, title=P.title, statement=P.statement, quantifier=dict(over=P.over, text=P.quant), why_tests_cant=P.why,
        anchors=dict(files=P.files, mechanism=[dict(name=a, where=b) for a, b in [m if not isinstance(m, str) else (m, P.files[0]) for m in P.mechanism]], observe_at=P.observe, hook_needed=None),
    ))
    hist = "histories" in P.over
    checks.append(dict(
        property=P.pid,
        quick_cmd="bash check.sh %s --tier quick" % P.pid,
        thorough_cmd="bash check.sh %s --tier thorough" % P.pid,
        evidence_file="evidence/%s.json" % P.pid,
        technique="property-based testing (Hypothesis generators%s, explicit oracle, shrinking)" % (", model-based histories" if hist else ""),
        level="exploration",
        level_note="Randomised exploration within stated bounds, not a proof: %s" % ("; ".join(P.assumptions) or "generated inputs only"),
    ))
    rows = "\n".join("  - `%s`: %d cases quick, %d thorough" % (f.name, f.quick, f.thorough) for f in P.facets)
    parts.append("### %s %s\n\n%s\n\n*How it is decided.* %s\n\n*Cases.* %s\n\n*Bounds / assumptions.* %s\n\n*Facets.*\n\n%s\n" % (
        P.pid, P.title, P.statement, P.note or "See the facets.", P.rule, "; ".join(P.assumptions) or "none beyond the generators", rows))
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
na = json.load(open(ROOT + "/tools/not_applicable.json")) if os.path.exists(ROOT + "/tools/not_applicable.json") else []
man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
           notes="No hooks: every check drives the public API of the working tree in /repo.")
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
d = open(ROOT + "/DESIGN.md").read() if os.path.exists(ROOT + "/DESIGN.md") else "<!--PROPS-->\n<!--/PROPS-->\n"
a, rest = d.split("<!--PROPS-->")
_, b = rest.split("<!--/PROPS-->")
with open(ROOT + "/DESIGN.md", "w") as f:
    f.write(a + "<!--PROPS-->\n" + "\n".join(parts) + "<!--/PROPS-->" + b)
print(len(props), "properties")
