#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" [flags]; the changed tree is /tmp/seed/repo, the demonstration's source on stdin.
set -e
id=$1; d=${SEEDROOT:-/verif}/seeded/$id; mkdir -p $d
cat > $d/demo.cpp
git -C /tmp/seed/repo diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /verif/tools/seedlib/{demo.sh,stubs.cpp,demo.hpp} $d/
if [ -n "$5" ]; then echo "$5" > $d/flags; else rm -f $d/flags; fi
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
chmod +x $d/demo.sh
a=0; (cd /repo && bash $d/demo.sh 2>&1 | grep -aE "ok$|WRONG$|rror"; exit ${PIPESTATUS[0]}) || a=$?
b=0; (cd /tmp/seed/repo && bash $d/demo.sh 2>&1 | grep -aE "ok$|WRONG$|rror"; exit ${PIPESTATUS[0]}) || b=$?
echo "demo: unchanged $a (want 0), changed $b (want non-zero)"
git -C /tmp/seed/repo checkout -q -- .
