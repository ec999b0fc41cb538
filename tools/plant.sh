#!/bin/bash
# plant.sh ID [PROP...]: try seeded/ID in a private copy of /repo and /verif (mount namespace, so /repo itself is untouched):
# builds, stable tests, demo on clean and on patched tree, then the quick checks of PROP... (default: the property in meta.json)
set -u
ID=$1; shift; S=/verif/seeded/$ID; PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/plant; mkdir -p $W; exec 9>$W/lock; flock 9
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
mkdir -p $W/verif; rsync -a --delete --exclude build --exclude evidence --exclude seeded --exclude .git /verif/ $W/verif/
[ -d $W/verif/build ] || cp -a /verif/build $W/verif/build
rm -rf $W/demo; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cat > $W/run.sh <<R
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "CLEAN BUILD FAILED"
[ -n "${NOCLEAN:-}" ] || { bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "demo clean rc=\$?"; }
git apply $W/patch.diff || { echo "PATCH FAILED"; exit 1; }
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "PATCHED BUILD FAILED"; tail -5 $W/b1.log; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; python3 - <<P
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$W/t.json'));s=b.get('stable') or b.get('passed') or b
miss=[x for x in (s if isinstance(s,list) else s['passed']) if x not in t['passed']];print('tests: '+('ok' if not miss else 'BROKEN %s'%miss))
P
bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "demo patched rc=\$? : \$(tail -1 $W/d1.log)"
cd /verif; for p in $PROPS; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py \$p >$W/c.\$p.log 2>&1; echo "check \$p rc=\$? \$(grep -m1 -A1 VIOLATION $W/c.\$p.log | tail -1 | cut -c1-200)"; done
cd /repo; git checkout -q -- .
R
cp $S/patch.diff $W/patch.diff
echo "== $ID"; unshare -m bash $W/run.sh
