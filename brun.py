#!/opt/venv/bin/python
"""brun.py PROP [seed] [tier]: bounded part only, all failures grouped"""
import sys, os, warnings, json
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, multiprocessing as mp
prop = sys.argv[1]; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
    rs = pool.map(check.bounded_job, [(prop, tier, seed, s, 8, float(os.environ.get("BB", "40"))) for s in range(8)])
g = {}
tot = {}
for _, _, r in rs:
    if isinstance(r, dict):
        print(r["tb"]); continue
    for c in r:
        t = tot.setdefault(c["name"], [0, 0, True]); t[0] += c["n"]; t[1] += len(c["fails"]); t[2] &= c["complete"]
        for case, e in c["fails"]:
            import re
            k = (c["name"], re.sub(r"-?\d+", "#", e[:70]) if ":" in e and " raised " not in e and "Error" not in e[:20] else e[-90:])
            g.setdefault(k, []).append((case, e))
for k, v in tot.items(): print(k, v)
for k, v in sorted(g.items(), key=lambda x: -len(x[1]))[:int(os.environ.get("TOP", "14"))]:
    v.sort(key=lambda x: len(json.dumps(x[0])))
    print(len(v), k[0], "|", v[0][1][:330]); print("      ", json.dumps(v[0][0])[:420])
