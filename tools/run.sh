#!/bin/bash
# condensed check output:  tools/run.sh C03 [regex]
cd /verif
out=$(mktemp)
SYMX_VERBOSE=1 timeout ${T:-1500} python3 /verif/check.py "$@" > $out 2>&1
echo "exit $?"
grep -v "^  .* ok  " $out | grep -v "wall=" | cut -c1-${W:-330} | head -${N:-14}
echo "slowest:"; grep "wall=" $out | head -${S:-6}
tail -1 $out
/bin/rm -f $out
