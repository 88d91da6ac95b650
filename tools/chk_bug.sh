#!/bin/bash
# chk_bug.sh ID [PROPS]: applies the planted bug to /tmp/bugrepo and runs the check only.
ID=$1; B=/verif/seeded/$ID; R=/tmp/bugrepo
exec 8>/tmp/bugrepo.lock; flock 8
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD || exit 2
git -C $R apply $B/patch.diff || exit 2
P=${2:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
mkdir -p /tmp/bv/evidence /tmp/bv/replays
rsync -a --delete --exclude target /verif/harness/ /tmp/bv/harness/
sed -i 's#path = "/repo"#path = "/tmp/bugrepo"#' /tmp/bv/harness/Cargo.toml
cp /verif/known_findings.json /verif/properties.jsonl /tmp/bv/
sed 's#cd /repo#cd /tmp/bugrepo#' /verif/build.sh > /tmp/bv/build.sh; chmod +x /tmp/bv/build.sh; cp /verif/check.sh /tmp/bv/
for p in $P; do
  (cd /tmp/bv && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} bash check.sh $p) > /tmp/chk_$ID.$p.log 2>&1; rc=$?
  echo "$ID: check $p rc=$rc $(grep -h VIOLATION /tmp/chk_$ID.$p.log | head -2)"; [ $rc = 1 ] || tail -3 /tmp/chk_$ID.$p.log | cut -c1-300
done
git -C $R checkout -q .
