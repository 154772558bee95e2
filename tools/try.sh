#!/bin/bash
# try.sh ID [PROPERTY..]: runs checks against a planted bug (applied to /repo and taken back).
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do (cd /verif; python3 check.py $p 2>&1 | tail -4 | cut -c1-400; echo "$ID $p exit ${PIPESTATUS[0]}"); done
