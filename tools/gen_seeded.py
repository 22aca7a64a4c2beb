"""Write SEEDED.md from seeded/*/meta.json and tools/seeded_notes.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools", "seeded_notes.json")))
out = ["# Planted bugs", "", "Every change below keeps the repository's tests passing, has a demonstration that fails with it, and is caught by the quick check of its property.",
       "Where the check missed the change at first, the last column says what was added to it; the additions are general (new dimensions of the generated input), not tailored to the change.", "",
       "| id | property | caught by facet | needs | first result |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    n = notes.get(d, {})
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], n.get("facet", ""), m["needs"].replace("|", "/"), n.get("first", "caught at first run")))
out += ["", "## Planted, strengthened the checks, then dropped", "",
        "These did not qualify (an existing test fails with them, or they touch lines of a repair), but the checks were run on them as well.", ""]
out += ["- " + x for x in notes["_dropped"]]
out += ["", "## Mutation runs", "", notes["_mutants"], ""]
open(os.path.join(root, "SEEDED.md"), "w").write("\n".join(out))
