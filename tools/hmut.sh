#!/bin/bash
# hmut.sh PID file 'sed expr' ... : one line per mutant, harness only
pid=$1; f=$2; shift 2
for e in "$@"; do
d=$(mktemp -d /tmp/hmut.XXXX); cp -r /repo/src /repo/util $d/ ; cp /repo/*.inc /repo/make* $d/ 2>/dev/null
sed -i "$e" $d/$f
diff -q /repo/$f $d/$f >/dev/null && echo "NO CHANGE: $e"
VERIF_REPO=$d timeout 900 python3-vt tools/hrun.py $pid > $d/out 2>&1
echo "$(grep -m1 '"status"' $d/out) | $e | $(grep -A1 -m1 '"failures": \[$' $d/out | tail -1 | cut -c1-200) $(grep -o '"why".*' $d/out | cut -c1-300)"
rm -rf $d
done
