#!/bin/bash
# plant.sh <id>: patch must be in /verif/seeded/<id>/patch.diff. Confirms demo (clean ok / patched fails), tests, and prints the checks' answers.
# usage: plant.sh ID [checks...]
id=$1; shift
S=/tmp/plant.$id
rm -rf "/tmp/plant.$id"; cp -a /repo $S
cd $S; D=$(mktemp -d /tmp/demo.XXXX); cp /verif/seeded/$id/* $D/; rm -f $D/patch.diff $D/meta.json
bash $D/demo.sh >/tmp/plant.$id.clean 2>&1; echo "$id clean rc=$?"
git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; exit 1; }
bash $D/demo.sh >/tmp/plant.$id.dirty 2>&1; echo "$id patched rc=$?"; tail -n 2 /tmp/plant.$id.dirty
cd /verif
for c in "$@"; do SA_REPO=$S SA_EVID=/tmp/plant.ev.$id python3 check.py $c > /tmp/plant.$id.$c 2>&1; echo "$id $c rc=$?"; grep -E '^\s+\[' /tmp/plant.$id.$c | cut -c1-260; done
if [ -z "$NOTEST" ]; then
W=/tmp/plant.w.$id; mkdir -p $W
sed "s#/repo#$S#g" /opt/vp/run_shard.sh > $W/run_shard.sh
sed -e "s#/repo#$S#g" -e "s#/opt/vp/work#$W/work#g" -e "s#/opt/vp/run_shard.sh#$W/run_shard.sh#g" /opt/vp/test.sh > $W/test.sh
bash $W/test.sh /tmp/plant.$id.json >/tmp/plant.$id.tlog 2>&1
python3 - <<P
import json
o=json.load(open('/tmp/plant.$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bp=b['stable']
print('$id', 'tests broken:', sorted(set(bp)-set(o['passed']))[:5], len(o['passed']))
P
fi
rm -rf "/tmp/plant.$id" "$D" "/tmp/plant.w.$id"
