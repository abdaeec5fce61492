#!/bin/bash
# dev helper: dev.sh C01 CASES [SEED] [flavour]: builds, runs with keep-going and summarises failure kinds
cd /verif; f=${4:-fast}
python3 build.py $f p_$1.cc > /tmp/bld_$1.log 2>&1 || { grep -m12 "error" /tmp/bld_$1.log; exit 2; }
o=/tmp/dev_$1_$f; rm -rf $o; mkdir -p $o
VP_KEEP_GOING=1 VP_NO_SHRINK=1 ./build/$f/p_$1 run --seed ${3:-1} --cases $2 --jobs 8 --out $o --wall ${WALL:-300} 2>&1 > $o/out.txt; grep -v "crash in case" $o/out.txt | cut -c1-130; echo "crashes: $(grep -c "crash in case" $o/out.txt)"; grep -o '"confirmed":true.*' $o/out.txt | cut -c1-${CW:-700}
python3 - $o <<'P'
import glob,json,collections,sys
d=collections.defaultdict(list)
for f in glob.glob(sys.argv[1]+'/fail.*'):
    if f.endswith('.tmp'): continue
    j=json.load(open(f)); d[j['kind']].append((len(j['tape']),j['case'],j['msg']))
for k,v in sorted(d.items(), key=lambda x:-len(x[1])): 
    v.sort(); print(len(v),k,'case',v[0][1],'|',v[0][2][:700])
lab=collections.Counter(); dis=collections.Counter()
for f in glob.glob(sys.argv[1]+'/w*.json'):
    j=json.load(open(f)); lab.update(j['labels']); dis.update(j['discards'])
import os
if os.environ.get('L'): print('labels',dict(lab))
print(len(lab),'labels; discards',dict(dis.most_common(5)))
P
