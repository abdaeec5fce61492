#!/bin/bash
# Usage: tools/tryseed.sh ID [skiptest]   (development only)
# Tries the planted bug seeded/ID in private overlays of /repo and /verif.
id=$1; skip=$2
V=/verif; W=$(mktemp -d /tmp/tryseed.XXXXXX); mkdir -p $W/{ru,rw,vu,vw}
unshare -m bash -c "
mount -t overlay overlay -o lowerdir=/repo,upperdir=$W/ru,workdir=$W/rw /repo
cp -a $V/seeded/$id $W/seed
mount -t overlay overlay -o lowerdir=$V,upperdir=$W/vu,workdir=$W/vw $V
cd /repo
bash $W/seed/demo.sh >$W/demo0.log 2>&1; echo \"$id demo-unpatched rc=\$?\"
git apply $W/seed/patch.diff || exit 9
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo '$id BUILD FAILED'; tail -5 $W/build.log; exit 9; }
bash $W/seed/demo.sh >$W/demo1.log 2>&1; echo \"$id demo-patched rc=\$?\"; tail -3 $W/demo1.log
if [ -z '$skip' ]; then
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
k=b['stable']
m=[t for t in k if t not in set(o['passed'])]
print('$id stable tests broken:',len(m),m[:5])\"
fi
p=\$(python3 -c \"import json;print(json.load(open('$W/seed/meta.json'))['property'])\")
cd $V; c=\$(python3 -c \"import json;print([x['quick_cmd'] for x in json.load(open('MANIFEST.json'))['checks'] if x['property']=='\$p'][0])\")
s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 \$c >$W/check.log 2>&1; rc=\$?; echo \"$id check \$p rc=\$rc \$((\$(date +%s)-s))s\"; grep -m2 -a VIOLATION $W/check.log; mkdir -p /tmp/seedlogs; cp $W/check.log /tmp/seedlogs/$id.log; cat replays/\$p-seed1* > /tmp/seedlogs/$id.json 2>/dev/null
"
rm -rf $W
