#!/bin/bash
# psweep.sh GEN N_PER_CORE START PROPS: sweep of a generator over all cores, with a summary of the violations
here=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
for i in ${CORES:-0 1 2 3 4 5 6 7}; do (CPU=$i timeout 1500 python3 $here/sweep.py $1 $2 $(( ${3:-0} + i*$2 )) $4 > $T/sw$i.txt 2>&1) & done; wait
cat $T/sw?.txt | grep -v '^{\|^rate' | cut -c1-420 | sort -k2,3 | awk '{c[$2" "$3]++; if (c[$2" "$3]<=5) print}'
grep -h '^rate\|^{' $T/sw?.txt | cut -c1-300 | tail -3
rm -r "$T"
