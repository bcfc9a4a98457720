#!/bin/bash
# tools/plant.sh ID [--notest]: confirm a planted bug in a scratch copy of /repo
# (bind-mounted over /repo in a private namespace) and run its property's check.
id=$1; D=/verif/seeded/$id
S=$(mktemp -d /tmp/plant.XXXXXX); trap '/bin/rm -rf "$S"' EXIT
cp -a /repo $S/repo; mkdir $S/demo; for f in $D/*; do case $f in *.diff|*.patch|*meta.json) ;; *) cp -a $f $S/demo/ ;; esac; done
git -C $S/repo apply $D/patch.diff || { echo "$id: APPLY FAILED"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" != --nocheck-clean ]; then (cd /repo && timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1); echo "$id: demo clean rc=$? (want 0)"; fi
unshare -Urm bash -c "
mount --bind $S/repo /repo || exit 9
bash /opt/vp/build.sh >$S/bl 2>&1 || { echo '$id: BUILD FAILED'; tail -5 $S/bl; exit 2; }
if [ '$2' != --notest ]; then bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1; python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('$S/t.json'))
print('$id: stable tests missing', len(b-set(t['passed'])), sorted(b-set(t['passed']))[:3])\"; bash /opt/vp/build.sh >$S/bl 2>&1; fi
cd /repo; timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; echo '$id: demo patched rc='\$?' (want nonzero)'; tail -2 $S/d1
cd /verif; /usr/bin/env VERIF_SEED=1 VERIF_TIER=quick VERIF_OUT=$S ./run.py $P >$S/ck 2>&1; echo '$id: check $P rc='\$?' '; grep -E 'VIOLATION|failed|note' $S/ck | head -6; tail -3 $S/ck | cut -c1-300
"
