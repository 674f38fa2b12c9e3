"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
T = "contract-based deductive verification: sidecar contracts on the functions of /repo, obligations generated by symbolic execution of the real sources and discharged by z3/cvc5; bounded run-time contracts as labelled stand-in where a function is out of reach"
exec(open(HERE + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lvl, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python /verif/check.py %s --tier quick" % i, thorough_cmd="/opt/venv/bin/python /verif/check.py %s --tier thorough" % i, technique=T, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m compileall -q /verif/engine /verif/contracts /verif/bounded", checks=checks, not_applicable=na), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
