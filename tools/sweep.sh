#!/bin/bash
# Runs every claimed check (tier $1, default quick) and prints time and result.
# With a second argument the checks run against that copy of the repository instead of /repo.
cd /verif
out=/tmp/sweep; [ -n "$2" ] && out=/tmp/sweep.$(basename $2)
for p in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  [ -n "$3" ] && ! [[ $p =~ ^($3)$ ]] && continue
  s=$(date +%s.%N); timeout 1800 ./check.sh $p ${1:-quick} ${2:+-repo $2} >$out.$p 2>&1; r=$?
  printf "%s rc=%d %.1fs notes=%d %s\n" $p $r $(echo "$(date +%s.%N)-$s"|bc) $(grep -c "REDUCED-BOUND\|INCONCLUSIVE" $out.$p) "$(grep -m1 VIOLATION $out.$p)"
done
