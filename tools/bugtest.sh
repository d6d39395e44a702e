#!/bin/bash
# Development tool: tools/bugtest.sh ID [notest] [CHECK...]: validates seeded/ID in a private copy of /repo (a bind mount in a
# mount namespace of its own): demo on the unchanged tree, build, stable tests, demo and checks with the patch.
ID=$1; shift; NOTEST=; [ "$1" = notest ] && { NOTEST=1; shift; }
D=/verif/seeded/$ID; W=/tmp/w/bt_$ID; rm -rf "$W"; mkdir -p /tmp/w; cp -a /repo "$W"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CH="${*:-$P}"
export VF_BUILD=/tmp/w/btb_$ID; mkdir -p $VF_BUILD
unshare -Urm bash -c "
mount --bind $W /repo && cd /repo || exit 9
bash /opt/vp/build.sh >/tmp/w/bt_$ID.build 2>&1 || { echo '$ID: build of base failed'; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/w/bt_$ID.demo0 2>&1; echo '$ID demo unchanged rc='\$? '(want 0)'
git apply $D/patch.diff || { echo '$ID: does not apply'; exit 1; }
bash /opt/vp/build.sh >/tmp/w/bt_$ID.build 2>&1 || { echo '$ID: build failed'; tail -5 /tmp/w/bt_$ID.build; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/w/bt_$ID.demo1 2>&1; echo '$ID demo patched rc='\$? '(want nonzero)'
cd /verif
for c in $CH; do timeout 900 bin/check \$c --tier quick --seed 1 >/tmp/w/bt_$ID.\$c 2>&1; rc=\$?; echo \"$ID check \$c rc=\$rc \$(grep -m1 VIOLATION /tmp/w/bt_$ID.\$c)\"; done
if [ -z '$NOTEST' ]; then
 bash /opt/vp/test.sh /tmp/w/bt_$ID.json >/tmp/w/bt_$ID.test 2>&1
 python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/bt_$ID.json'))
p=lambda d: set(d.get('stable') or d.get('pass') or d.get('passed') or [])
lost=p(b)-p(r)
print('$ID tests lost:', len(lost), sorted(lost)[:5], 'of', len(p(b)))
PY
fi"
rm -rf "$W" "$VF_BUILD"
