#!/bin/bash
# usage: tools/plant.sh SEED [nocheck]   validates /verif/seeded/SEED against /repo (applied, tested, undone)
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != checkonly ]; then
bash "$S/demo.sh" > /tmp/demo.clean 2>&1; echo "demo clean rc=$?"
fi
git apply "$S/patch.diff" || exit 1
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || echo BUILD FAILED
bash "$S/demo.sh" > /tmp/demo.bad 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/demo.bad
bash /opt/vp/test.sh /tmp/plant.json > /dev/null 2>&1; python3 /verif/tools/cmptests.py /tmp/plant.json
fi
if [ "$2" != nocheck ]; then cd /verif; python3 check.py $P quick 2>&1 | grep -v "^KNOWN-FIND" | cut -c1-200 | head -6; fi
