#!/bin/bash
# seedrun.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 bash run.sh check $p quick > /tmp/seedrun.$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  x="";[ $rc = 1 ] && { grep -q "^failed obligation" /tmp/seedrun.$id.out && x=p; grep -q "^failing input" /tmp/seedrun.$id.out && x=$x+x; }; python3 -c "import json,os;f='tools/seed_results.json';d=json.load(open(f)) if os.path.exists(f) else {};d['$id']='${x:-missed}';json.dump(d,open(f,'w'),indent=0,sort_keys=True)"
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c '^failed obligation' /tmp/seedrun.$id.out) obligations; $(grep '^VIOLATION' /tmp/seedrun.$id.out | sed 's/.*replay=[^ ]*//')"
done
