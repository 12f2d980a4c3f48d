#!/bin/bash
# catch2.sh SLOT ids...: like catch.sh, in a private copy of /repo and /verif
k=$1; shift
d=/tmp/dev/$k; mkdir -p $d
rsync -a --delete --exclude /target /repo/ $d/repo/ 2>/dev/null || { rm -rf $d/repo; cp -a /repo $d/repo; }
if [ -z "$NOSYNC" ]; then
rsync -a --delete --exclude /target --exclude /evidence --exclude /replays /verif/ $d/verif/ 2>/dev/null || { mkdir -p $d/verif; for x in sim shims run.sh seeded known_findings.txt properties.jsonl MANIFEST.json tools; do rm -rf $d/verif/$x; cp -a /verif/$x $d/verif/; done; }
fi
mkdir -p $d/verif/evidence $d/verif/replays
[ -d $d/verif/target ] || cp -a /verif/target $d/verif/target
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  p=${CHECK:-$p}
  git -C $d/repo checkout -q -- . 
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  unshare -Urm bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif && VERIF_SEED=${SEED:-1} timeout 900 bash run.sh $p" > /tmp/bugs/out.$id.$p 2>&1; rc=$?
  git -C $d/repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/bugs/out.$id.$p | cut -c1-120)"
done
