#!/bin/bash
# dev helper: crashes.sh C26 CASES SEED [N]: lists crashing cases under asan with their innermost isl frames
cd /verif; o=/tmp/crash_$1; rm -rf $o; mkdir -p $o
python3 build.py asan p_$1.cc >/dev/null || exit 2
VP_KEEP_GOING=1 VP_NO_SHRINK=1 ./build/asan/p_$1 run --seed $3 --cases $2 --jobs 8 --out $o --wall 800 > $o/log 2>&1
grep -o "\(crash\|hang\) in case [0-9]*" $o/log | awk '{print $4}' | sort -n | head -${4:-60} > $o/cases
cat $o/cases | xargs -P 8 -I{} sh -c "VP_ECHO=1 timeout 100 ./build/asan/p_$1 case {} --seed $3 > $o/c.{} 2>&1"
for i in $(cat $o/cases); do
  echo "$i $(grep -m1 -o 'ERROR: AddressSanitizer: [a-zA-Z-]*\|runtime error: .\{0,60\}\|Assertion.\{0,60\}' $o/c.$i | tr '\n' ' ') $(grep -o ' in isl_[a-z_0-9]*\| in [a-z_0-9]* /repo' $o/c.$i | head -7 | sed 's/ in //;s# /repo##' | tr '\n' ' ') ;; $(grep '^\$\?[0-9]* \?=\? \?isl_\|^isl_' $o/c.$i | tail -1 | cut -c1-80)"
done
