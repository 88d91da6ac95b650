#!/bin/bash
# try_bug.sh ID [nochk]: confirms the planted bug /verif/seeded/ID in a scratch copy of /repo
# (/tmp/bugrepo), then runs the property's check against it (/tmp/bv). For development only.
ID=$1; B=/verif/seeded/$ID; R=/tmp/bugrepo
cd $R || exit 2
exec 8>/tmp/bugrepo.lock; flock 8
git -C $R fetch -q /repo HEAD && git -C $R checkout -q -f FETCH_HEAD || exit 2
(cd $R && bash $B/demo.sh) > /tmp/demo_$ID.clean 2>&1 || { echo "$ID: demo FAILS on the clean tree"; tail -20 /tmp/demo_$ID.clean; exit 1; }
git -C $R apply $B/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
sed 's#cd /repo#cd /tmp/bugrepo#; s#/repo/target#/tmp/bugrepo/target#g' /opt/vp/test.sh > /tmp/bugtest.sh
OUT=$(bash /tmp/bugtest.sh /tmp/bugres.json 2>&1)
python3 - <<'P' || { echo "$ID: tests fail"; echo "$OUT" | tail -15; git -C $R checkout -q .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bugres.json'))
bs=b['stable']
rs=r.get('passed') or []
miss=[t for t in bs if t not in rs]
if miss: print(miss); sys.exit(1)
P
(cd $R && bash $B/demo.sh) > /tmp/demo_$ID.bad 2>&1 && { echo "$ID: demo PASSES with the bug"; tail -5 /tmp/demo_$ID.bad; git -C $R checkout -q .; exit 1; }
echo "$ID: confirmed"; grep -E "panicked|assert|test result|error" /tmp/demo_$ID.bad | head -4
if [ "$2" != nochk ]; then
  P=${2:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
  rsync -a --delete --exclude target /verif/harness/ /tmp/bv/harness/
  sed -i 's#path = "/repo"#path = "/tmp/bugrepo"#' /tmp/bv/harness/Cargo.toml
  cp /verif/known_findings.json /tmp/bv/; cp /verif/properties.jsonl /tmp/bv/
  sed 's#cd /repo#cd /tmp/bugrepo#' /verif/build.sh > /tmp/bv/build.sh; chmod +x /tmp/bv/build.sh; cp /verif/check.sh /tmp/bv/
  for p in $P; do
  (cd /tmp/bv && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_WALL=$VERIF_WALL bash check.sh $p) > /tmp/chk_$ID.$p.log 2>&1; rc=$?
  echo "$ID: check $p rc=$rc $(grep -h VIOLATION /tmp/chk_$ID.$p.log | head -2)"; tail -2 /tmp/chk_$ID.$p.log | cut -c1-300
  done
fi
git -C $R checkout -q .
