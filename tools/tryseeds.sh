#!/bin/bash
# tryseeds.sh [id...]: each planted bug applied to a scratch copy of /repo, its property's check run against that copy.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V" || exit 2
one() {
 id=$1; p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
 d=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $d/repo; mkdir $d/out
 git -C $d/repo apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf $d; return; }
 st=$(date +%s)
 VERIF_SEED=${VERIF_SEED:-1} VH_REPO=$d/repo VH_OUT=$d/out timeout 900 ./check.sh $p quick >$d/log 2>&1; rc=$?
 if [ $rc = 1 ] && grep -q "VIOLATION property=$p" $d/log; then r=CAUGHT; else r=MISSED; fi
 echo "$r $id $p rc=$rc $(( $(date +%s)-st ))s $(grep -v VIOLATION $d/log | tail -3 | tr '\n' ' ' | cut -c1-${COLS:-200})"
 rm -rf $d
}
export -f one; export V
printf '%s\n' ${@:-$(ls seeded)} | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
