#!/bin/bash
# par.sh BUILD PROP SECONDS [extra]: development helper, 8 workers
b=$1; p=$2; t=$3; shift 3
for w in 0 1 2 3 4 5 6 7; do mkdir -p /tmp/scr/$w; $b/kmon --prop $p --from $w --step 8 --time $t --scratch /tmp/scr/$w "$@" > /tmp/scr/$w.out 2>/tmp/scr/$w.err & done; wait
cat /tmp/scr/?.out | grep "^C" | awk -F'\t' '{a[$2]+=$3} END{for(k in a) print a[k]"\t"k}' | sort -k2
cat /tmp/scr/?.out | grep "^[FX]" | awk -F'\t' '{print $1,$3,$4,($1=="X"?substr($6,1,30):"")}' | sort | uniq -c | sort -rn | head -40
