#!/bin/bash
# dev helper: leak.sh Cxx CASE SEED: shows the allocation stacks of a leaking case
cd /verif; ASAN_OPTIONS=detect_leaks=1 ./build/asan/p_$1 case $2 --seed $3 2>&1 | grep -A9 "Direct leak" | grep "leak\|#[0-9]" | sed 's/0x[0-9a-f]* in//;s#/repo/##;s#(.*##' | awk '/leak/{if(n++>2)exit}{print}' | cut -c1-90
