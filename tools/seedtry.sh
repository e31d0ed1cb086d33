#!/bin/bash
# seedtry.sh ID [nocheck|PROP...]: confirms a planted change in a scratch copy mounted over /repo (private mount namespace).
# Reports: build, stable tests, demo with/without the change, and the checks of the given properties (default: meta.json's).
id=$1; shift
seed=/verif/seeded/$id
w=/tmp/sw_$id
mkdir -p $w/repo $w/verif
rsync -a --delete /repo/ $w/repo/
rsync -a --delete --exclude build /verif/ $w/verif/
[ -d $w/verif/build ] || { [ -d /verif/build ] && cp -a /verif/build $w/verif/build; }
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
unshare -m bash -c "
mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /repo
git checkout -q -- .; git apply --check /verif/seeded/$id/patch.diff || { echo APPLY-FAILED; exit 1; }
[ -z \"\$SKIPBASE\" ] && { bash /opt/vp/build.sh >$w/b0.log 2>&1; bash /verif/seeded/$id/demo.sh >$w/d0.log 2>&1; echo \"demo on unchanged: \$?\"; }
git apply /verif/seeded/$id/patch.diff
bash /opt/vp/build.sh >$w/b1.log 2>&1; echo \"build: \$?\"
[ -z \"\$SKIPTEST\" ] && { bash /opt/vp/test.sh $w/t.json >$w/t.log 2>&1; python3 -c \"
import json;p=set(json.load(open('$w/t.json'))['passed']);s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('tests: missing',sorted(s-p))\"; }
bash /verif/seeded/$id/demo.sh >$w/d1.log 2>&1; echo \"demo on changed: \$?\"
for p in $props; do [ \$p = nocheck ] && continue; VERIF_SEED=\${VERIF_SEED:-1} python3 run.py 2>/dev/null; cd /verif; VERIF_SEED=\${VERIF_SEED:-1} python3 run.py check \$p quick > $w/c_\$p.log 2>&1; echo \"check \$p: \$? \$(grep -m1 VIOLATION $w/c_\$p.log)\"; done
" 2>&1 | sed "s/^/[$id] /"
[ -z "$KEEP" ] && rm -rf "$w"
