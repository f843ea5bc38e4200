#!/bin/bash
# dev/refac.sh ID...: the checks must be quiet on these edits (run in private copies bind-mounted over /repo)
one() {
  id=$1; w=$(mktemp -d /tmp/refac-XXXXXX); cp -a /repo $w/repo
  sed 1d /verif/dev/refac/$id.diff > $w/p.diff
  props=${PROPS:-$(sed -n '1s/^# //p' /verif/dev/refac/$id.diff)}
  unshare -Urm bash -c "
    mount --bind $w/repo /repo && cd /repo && git apply $w/p.diff || { echo PATCH DOES NOT APPLY; exit 8; }
    if [ -n \"\$BUILD\" ]; then bash /opt/vp/test.sh $w/out.json > $w/build.log 2>&1; python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/out.json'))['passed'])
print('tests', 'ok' if b<=o else 'BROKEN %s'%(b-o))\"; fi
    cd /verif
    for p in $props; do s=\$(date +%s); CXV_EVID=$w VERIF_SEED=1 timeout 900 python3-vt check.py \$p > $w/check.log 2>&1; r=\$?
      echo \"== $id \$p rc=\$r \$(( \$(date +%s)-s ))s \$(tail -1 $w/check.log)\"; cp $w/check.log /tmp/t/refac-$id-\$p.log; grep -E 'failed:|VIOLATION|outside|failing' $w/check.log | cut -c1-260 | head -8; done"
  rm -rf $w
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
