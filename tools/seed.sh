#!/bin/bash
# seed.sh ID [notest]: confirm a planted change in a scratch copy (/tmp/sc).
ID=$1; S=/verif/seeded/$ID
[ -d /tmp/sc ] || cp -a /repo /tmp/sc
if [ ! -d /tmp/vpsc ]; then mkdir /tmp/vpsc; cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json /tmp/vpsc/; sed -i 's#/repo#/tmp/sc#g; s#/opt/vp#/tmp/vpsc#g' /tmp/vpsc/*.sh /tmp/vpsc/*.py; fi
H=$(git -C /repo rev-parse HEAD)
git -C /tmp/sc fetch -q /repo HEAD && git -C /tmp/sc checkout -q -f $H
cd /tmp/sc
[ -f $S/demo.sh ] || cp /verif/tools/demo_template.sh $S/demo.sh
bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "$ID demo clean: $? (want 0)"
git -C /tmp/sc apply $S/patch.diff || exit 1
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "$ID demo patched: $? (want nonzero)"; tail -3 /tmp/demo1.log
if [ "$2" != notest ]; then
bash /tmp/vpsc/test.sh /tmp/sc.json > /tmp/sc.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/sc.json'))
print("$ID stable tests not passing:", sorted(b-set(r['passed']))[:8])
P
fi
git -C /tmp/sc checkout -q -f $H
