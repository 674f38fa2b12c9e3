#!/bin/bash
# fix.sh PROP "message" [files or "-p regex file"]: commit (part of) the working tree of /repo as a fix and record it
cd /repo || exit 1
p=$1; m=$2; shift 2
if [ "$1" = "-p" ]; then
  # only the hunks (context 1) of file $3 whose text matches regex $2
  git diff -U1 -- "$3" | python3 -c '
import re,sys
t=sys.stdin.read(); parts=re.split(r"(?m)^(?=@@ )",t)
print(parts[0]+"".join(h for h in parts[1:] if re.search(sys.argv[1],h)),end="")' "$2" > /tmp/part.diff
  git apply --cached --unidiff-zero /tmp/part.diff || exit 1
elif [ $# -gt 0 ]; then git add "$@" || exit 1
else git add -u; fi
git commit -qm "fix: $m" || exit 1
h=$(git log --format=%h -1)
python3 - "$p" "$h" "$m" >> /verif/known_findings.jsonl <<'P'
import json, sys
p, h, m = sys.argv[1:]
print(json.dumps({"status": "fixed", "property": p, "commit": h, "what": "fixed: property=%s %s %s" % (p, h, m)}))
P
