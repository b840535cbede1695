#!/bin/bash
# tryseed.sh ID...: demo on the clean and the patched tree, then the property's quick check on the patched tree (scratch clone)
R=/tmp/wt/r
for id in "$@"; do
 git -C $R checkout -q -- . ; git -C $R pull -q
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 (cd $R && bash $d/demo.sh >/tmp/wt/o1 2>&1); a=$?
 git -C $R apply $d/patch.diff || echo APPLY-FAILED
 (cd $R && bash $d/demo.sh >/tmp/wt/o2 2>&1); b=$?
 if [ -z "$NOCHECK" ]; then (cd /verif && HXV_REPO=$R timeout 900 python3-vt -m hxv.run --prop $p --tier quick > /tmp/wt/chk.$id 2>&1); c=$?; fi
 echo "$id $p: demo clean=$a patched=$b check=$c $(grep VIOLATION /tmp/wt/chk.$id)"
 git -C $R checkout -q -- .
done
