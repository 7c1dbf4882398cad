#!/bin/bash
# trycheck.sh SEED [PROP]: run the property's check against a scratch copy with the seeded change applied.
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -d /tmp/rm ] || { mkdir /tmp/rm; git -C /repo archive HEAD | tar x -C /tmp/rm; (cd /tmp/rm && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x); }
cd /tmp/rm && git checkout -q -f . 
for f in $(git -C /repo diff --name-only dea2046 HEAD 2>/dev/null); do cp /repo/$f /tmp/rm/$f; done
git add -A; git -c user.email=a -c user.name=a commit -qm y >/dev/null
git apply $S/patch.diff || exit 2
cd /verif && VERIF_REPO=/tmp/rm VERIF_CACHE=/tmp/cachem python3 run.py $P > /tmp/try-$1.log 2>&1; rc=$?
grep -E "VIOLATION|failing input|failed obl|out of the" /tmp/try-$1.log | cut -c1-300; echo "== $1 $P rc=$rc"
cd /tmp/rm && git checkout -q -f .
