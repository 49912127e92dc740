#!/bin/bash
# mut.sh PID file 'sed expr' [width]: the proof of PID on a mutated copy of the sources
D=$(mktemp -d); cp -r /repo/src /repo/util $D/
sed -i "$3" $D/$2
diff -q /repo/$2 $D/$2 >/dev/null && echo "NO CHANGE"
cd /verif; echo "## $1 $2 $3"; VERIF_REPO=$D timeout 900 python3-vt /verif/tools/prove1.py $1 2>&1 | cut -c1-${4:-250}
rm -rf $D
