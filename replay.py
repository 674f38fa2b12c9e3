#!/opt/venv/bin/python
"""replay.py FILE: re-run the recorded case of a VIOLATION on /repo's current tree (exit 1 if it still fails)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
r = json.load(open(sys.argv[1]))
if r["case"] is None:
    print(r["check"])
    print(r["error"])
    print("no failing input recorded; re-run: check.py", r["property"])
    sys.exit(1)
from bounded import reg
reg.load(r["property"])
chk = [c for c in reg.CHECKS[r["property"]] if c["name"] == r["check"]][0]
print("case:", json.dumps(r["case"]))
e = reg.run_one(chk, r["case"])
print("result:", e)
sys.exit(1 if e else 0)
