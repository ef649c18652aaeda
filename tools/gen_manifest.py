"""MANIFEST.json from the property list and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
na = V + "/tools/not_applicable.json"
if os.path.exists(na):
    NA = json.load(open(na))
checks, nas = [], []
for p in props:
    i = p["id"]
    f = V + "/checks/%s.py" % i.lower()
    if os.path.exists(f) and i not in NA:
        src = open(f).read()
        ns = {}
        for l in src.splitlines():
            if l.startswith(("BOUNDS =", "OUTSIDE =")):
                exec(l, ns)
        checks.append(dict(property=i, quick_cmd="./run.sh %s --tier quick" % i, thorough_cmd="./run.sh %s --tier thorough" % i,
            technique="symbolic execution of the real source (Python, compiled from /repo against symbolic numpy/pandas/cvxpy facades) with exact "
                      "rational-function normal forms and the z3 SMT solver deciding every claim; counterexamples replayed on the real package",
            level="model_checking",
            level_note="Bounded: %s. Outside: %s." % (ns.get("BOUNDS", ""), ns.get("OUTSIDE", ""))))
    else:
        nas.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="./run.sh --selftest", checks=checks, not_applicable=nas), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "n/a")
