#!/bin/bash
# times.sh [ids]: how long the checks take, and how deep they get
cd "$(dirname "$0")/.."
for i in ${@:-$(seq -f C%02g 1 30)}; do
	s=$(date +%s.%N)
	( time VF_LIMIT=${VF_LIMIT:-600} python3 run.py $i $VF_TIER ) > out/time.$i 2>&1
	echo "$i rc: $(grep -c VIOLATION out/time.$i) $(grep -E '^C|^ERROR' out/time.$i) | $(grep -E 'user' out/time.$i)"
done
