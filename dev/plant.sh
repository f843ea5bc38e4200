#!/bin/bash
# dev/plant.sh ID...: validates planted bugs in private copies of /repo (bind-mounted over /repo in a mount namespace)
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/plant-XXXXXX)
  cp -a /repo $w/repo; mkdir $w/demo; cp -a $d/. $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
  unshare -Urm bash -c "
    mount --bind $w/repo /repo && cd /repo || exit 9
    bash $w/demo/demo.sh > $w/clean.log 2>&1; echo clean=\$?
    git apply $d/patch.diff || { echo PATCH DOES NOT APPLY; exit 8; }
    if [ -z \"\$NOBUILD\" ]; then
    bash /opt/vp/test.sh $w/out.json > $w/build.log 2>&1; 
    python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/out.json'))['passed'])
print('tests', 'ok' if b<=o else 'BROKEN %s'%(b-o))\"
    fi
    bash $w/demo/demo.sh > $w/patched.log 2>&1; echo patched=\$?
    p=\$(python3 -c \"import json;print(json.load(open('$d/meta.json'))['property'])\")
    cd /verif && CXV_EVID=$w VERIF_SEED=1 timeout 900 python3-vt check.py \$p > $w/check.log 2>&1; echo check=\$?
  " > $w/res 2>&1
  echo "== $id: $(tr '\n' ' ' < $w/res)"; tail -3 $w/patched.log | cut -c1-300; grep -E "failed:|VIOLATION|failing input|outside|WHAT|proved|bounded" $w/check.log | cut -c1-300 | head -12
  cp $w/check.log /tmp/t/plant-$id.log; cp $w/build.log /tmp/t/plant-$id.build.log 2>/dev/null
  rm -rf $w
}
export -f one
if [ $# -eq 1 ]; then one $1; else printf '%s\n' "$@" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'; fi
