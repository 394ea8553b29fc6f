"""Writes MANIFEST.json: the checks that exist, the properties that do not."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C20": "names are Python strings built and parsed character by character with "
        "regular expressions and dictionary lookups; the proxies cannot stay "
        "symbolic through them, so only enumeration of names would remain, "
        "which is not this technique",
}
TECH = ("symbolic execution of the real Python code (z3 proxies, path "
        "exploration) with SMT-decided assertions")
NOTE = ("Holds for every value within the bounds listed in the evidence file "
        "(sizes, scenarios); assumes the proxies model numpy/Python faithfully, "
        "every counterexample is replayed on the unmodified jitted code; reals "
        "stand for floats.")
checks = []
na = []
for p in props:
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick",
                           thorough_cmd=f"./check.sh {p} thorough",
                           technique=TECH, level="other", level_note=NOTE))
    else:
        na.append(dict(property=p, reason="not built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
