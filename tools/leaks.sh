#!/bin/bash
# dev helper: leaks.sh Cxx CASES SEED: leaking cases grouped by the call after which memory is missing
cd /verif; bash tools/dev.sh $1 $2 $3 asan | grep -v " leak case"
for i in $(python3 -c "
import glob,json
for f in glob.glob('/tmp/dev_$1_asan/fail.*'):
    j=json.load(open(f))
    if j['kind']=='leak': print(j['case'])" | head -${4:-40}); do
echo "$i: $(ASAN_OPTIONS=detect_leaks=1 ./build/asan/p_$1 case $i --seed $3 2>&1 | grep -A12 "Direct leak" | grep -o '#[0-9]* .*' | sed 's/0x[0-9a-f]* in//' | grep '/repo\|isl_' | head -5 | awk '{print $2}' | grep -v alloc_or_die | tr '\n' ' ') ;; $(VP_ECHO=1 ./build/asan/p_$1 case $i --seed $3 2>/dev/null | grep -a '^\$[0-9]* =' | grep -o "= isl_[a-z_]*" | tail -2 | tr '\n' ' ')"
done
