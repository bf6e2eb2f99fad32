#!/bin/bash
# seedrun.sh ID [CHECK...] : run the check of a planted change's property (or the given ones) against it, in the scratch copy /tmp/sb
SB=${SB:-/tmp/sb}; V=${V:-/verif}
[ -d $SB ] || cp -a /repo $SB
id=$1; shift
cd $SB && git checkout -q -- . && git fetch -q ${SEEDREPO:-/repo} HEAD && git checkout -q FETCH_HEAD && git apply $V/seeded/$id/patch.diff || exit 1
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
for c in $checks; do
  VERIF_REPO=$SB timeout 900 python3 $V/check.py $c > /tmp/sr.out 2>&1; r=$?
  echo "$id $c exit=$r $(grep -c ^VIOLATION /tmp/sr.out) $(grep -m1 '^  ' /tmp/sr.out | cut -c1-200) [$(grep -m1 ' quick:' /tmp/sr.out | sed 's/.* //')]"
  [ $r -gt 1 ] && tail -5 /tmp/sr.out
done
git checkout -q -- .
