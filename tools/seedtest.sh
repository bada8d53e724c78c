#!/bin/bash
# seedtest.sh ID...: demonstration on the unchanged and the changed tree, then the property's check on the changed tree (a scratch copy).
for id in "$@"; do
    d=/verif/seeded/$id; w=/tmp/seedtest.$id
    rm -rf "$w"; git clone -q /repo "$w" || exit 1
    git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    (cd /repo && bash "$d/demo.sh" >/dev/null 2>&1); a=$?
    (cd "$w" && bash "$d/demo.sh" >/dev/null 2>&1); b=$?
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -n "$SKIPCHECK" ] || out=$(cd /verif && VERIF_REPO="$w" ./check.sh "$p" 2>&1 | grep -v '^ ')
    echo "$id: demo $a/$b; check $p: $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^counter' | cut -c1-160)"
    rm -rf "$w"
done
