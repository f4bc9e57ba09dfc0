#!/bin/bash
# usage: plant.sh ID   : verifies /verif/seeded/ID (patch applies, builds, stable tests pass, demo 0 without / nonzero with, check catches)
# PLANT_NOTEST=1 skips the stable tests
ID=$1; D=/verif/seeded/$ID
PID=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash $D/demo.sh >/tmp/demo0.txt 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 /tmp/demo0.txt; exit 1; }
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if bash $D/demo.sh >/tmp/demo1.txt 2>&1; then echo "demo passes with the patch"; R=bad; fi
tail -2 /tmp/demo1.txt
[ -n "$PLANT_NOTEST" ] || bash /verif/tools/t.sh
/verif/check.py $PID --no-evidence 2>&1 | grep -v '^  ' | tail -4 | cut -c1-300
echo "check exit ${PIPESTATUS[0]}"
