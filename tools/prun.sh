#!/bin/bash
# prun.sh MOD PROP [names]: run contracts in parallel, one process each
mod=$1; prop=$2; shift 2
names="$@"
[ -z "$names" ] && names=$(cd /verif; /opt/venv/bin/python -W ignore -c "
import importlib; from contracts import spec; importlib.import_module('contracts.$mod'); print(' '.join(c['name'] for c in spec.CONTRACTS['$prop'] if not c.get('open')))")
d=$(mktemp -d)
echo $names | tr ' ' '\n' | xargs -P 8 -I{} sh -c "cd /verif; timeout ${T:-300} /opt/venv/bin/python -W ignore engine/runner.py $mod $prop {} > $d/{} 2>&1 || echo 'TIMEOUT/ERR {}' >> $d/{}"
for n in $names; do head -${L:-9} $d/$n | cut -c1-${W:-300}; tail -3 $d/$n | grep -E "Error|TIMEOUT" ; done
/bin/rm -rf $d
