#!/bin/bash
d=/tmp/dev/ref
for p in "$@"; do s=$(date +%s)
unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && VERIF_SEED=${SEED:-1} timeout 900 bash run.sh $p" > /tmp/dev/ref/out.$p 2>&1; rc=$?
echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/dev/ref/out.$p | cut -c1-120)"
done
