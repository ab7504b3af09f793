#!/bin/bash
# dev.sh PROP BUILD COUNT [SEED]: quick look while developing
S=$(ls -d /verif/build/$2-*/sim); D=/tmp/o/$1-$2; rm -rf /tmp/o/$1-$2; mkdir -p $D
for w in 0 1 2 3 4 5 6 7; do $S batch $1 $2 0 ${4:-1} $w 8 $(( $3 / 8 )) ${5:-60} $D w$w & done; wait
cat $D/rec-* | grep -E "^[VXN]" | cut -c1-300; cat $D/rec-* | grep -c "^R"; cat $D/rec-* | grep "^T"|sort|tail -1
