#!/opt/venv/bin/python
"""plant.py FILE.py [ids]: FILE defines PLANTS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks)]
builds /verif/seeded/<id>/ for each entry that is confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
SC = "/tmp/plantcopy"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
first = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
base = subprocess.run("git -C /repo log --format='%H %s'", shell=True, capture_output=True, text=True).stdout.splitlines()
orig = [l.split()[0] for l in base if not l.split(" ", 1)[1].startswith("fix:")]
for p in ns["PLANTS"]:
    if only and p["id"] not in only:
        continue
    shutil.rmtree(SC, ignore_errors=True)
    shutil.copytree("/repo", SC, symlinks=True)
    bad = None
    for f, old, new in p["edits"]:
        t = open(SC + "/" + f).read()
        if t.count(old) != 1:
            bad = "%s: %d occurrences of %r" % (f, t.count(old), old)
            break
        open(SC + "/" + f, "w").write(t.replace(old, new))
    if bad:
        print(p["id"], "EDIT", bad); continue
    diff = subprocess.run("git -C %s diff" % SC, shell=True, capture_output=True, text=True).stdout
    # lines removed must be lines of the original repository
    import re
    own = 0; tot = 0
    for f in set(e[0] for e in p["edits"]):
        d0 = subprocess.run("git -C %s diff -U0 %s" % (SC, f), shell=True, capture_output=True, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
            a, c = int(m.group(1)), int(m.group(2) or 1)
            if c == 0: continue
            bl = subprocess.run("git -C /repo blame -s -l -L %d,%d HEAD -- %s" % (a, a + c - 1, f), shell=True, capture_output=True, text=True).stdout
            for l in bl.splitlines():
                tot += 1
                if l.split()[0].lstrip("^")[:39] not in [o[:39] for o in orig]:
                    own += 1
    d = "/verif/seeded/" + p["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write('"""exit 0 when the property holds on this input, 1 otherwise"""\nimport os, sys, warnings\nwarnings.simplefilter("ignore")\nsys.path.insert(0, os.getcwd())\nimport numpy\nimport awkward0\n' + p["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=SC, env=env, capture_output=True, text=True)
    t = subprocess.run("sed s#/repo#%s#g /opt/vp/test.sh > /tmp/plant_test.sh; bash /tmp/plant_test.sh /tmp/plant_o.json | tail -3" % SC, shell=True, capture_output=True, text=True, env=dict(os.environ)).stdout.strip().splitlines()
    stable = json.load(open("/opt/vp/BASELINE.json"))
    print(p["id"], "clean demo", r0.returncode, "patched demo", r1.returncode, "| own lines %d/%d" % (own, tot), "|", t[-1:] )
    if r0.returncode != 0: print(r0.stdout[-500:], r0.stderr[-800:])
    elif r1.returncode == 0: print("  demo does not notice")
    else: print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
shutil.rmtree(SC, ignore_errors=True)
