#!/bin/bash
# usage: catch.sh [-p PROP] ID... : runs the property's quick check on a scratch copy with each planted bug applied
cd /verif
mkdir -p /tmp/catch
one() {
  id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  w=/tmp/catch/$id; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; return; }
  s=$(date +%s); ./check.sh "$prop" ${TIER:-quick} -repo "$w" > /tmp/catch/$id.out 2>&1; rc=$?
  v=$(grep -c '^VIOLATION' /tmp/catch/$id.out)
  if [ $rc = 1 ] && [ $v -gt 0 ]; then r=CAUGHT; else r="MISSED rc=$rc"; fi
  echo "$id $prop $r $(( $(date +%s)-s ))s $(grep -c 'REDUCED\|INCONCL' /tmp/catch/$id.out)notes"
  rm -rf "$w"
}
p=; [ "$1" = -p ] && { p=$2; shift 2; }
[ $# = 0 ] && set -- $(ls seeded)
for i in "$@"; do one "$i" "$p"; done
