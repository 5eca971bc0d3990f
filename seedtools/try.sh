#!/bin/bash
# try.sh ID...: demo on the plain and the patched tree, then the property's check
for id in "$@"; do
id=$(basename $id)
d=${VERIF:-/verif}/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d); git clone -q /repo $w/r; cd $w/r
bash $d/demo.sh >$w/o1 2>&1; a=$?
git apply $d/patch.diff || echo "$id: patch does not apply"
bash $d/demo.sh >$w/o2 2>&1; b=$?
echo "$id [$p] demo plain=$a patched=$b: $(tail -1 $w/o2 | cut -c1-150)"
[ $a = 0 ] || tail -5 $w/o1
if [ -z "$NOCHECK" ]; then (cd ${VERIF:-/verif}; VERIF_REPO=$w/r VERIF_SECONDS=${T:-28} ./check.py $p 2>&1 | tail -2 | cut -c1-300); fi
cd /; rm -rf $w
done
