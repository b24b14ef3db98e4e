#!/bin/bash
# try.sh ID [nocheck]: validate seeded bug ID in scratch, run its check
R=/tmp/sb2/repo; S=/verif/seeded/$1; V=/tmp/sb2/verif
. /opt/vp/env.sh
git -C $R checkout -q -- . ; git -C $R apply $S/patch.diff || { echo "$1 NOAPPLY"; exit; }
cd $R
t=ok
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sb2/test.log 2>&1
python3 /opt/vp/results.py /tmp/sb2/res.json cargo:/tmp/sb2/test.log > /dev/null 2>&1
miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sb2/res.json'))
bp=set(b['stable']); rp=set(r['passed'])
print(len(bp), len(bp-rp), sorted(bp-rp)[:4])
P
)
bash $S/demo.sh > /tmp/sb2/demo.log 2>&1; d=$?
c=-
if [ -z "$2" ]; then
 p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 t0=$(date +%s)
 FCHECK_REPO=$R $V/check.sh $p quick > /tmp/sb2/check.log 2>&1; c=$?
 v=$(grep -m1 VIOLATION /tmp/sb2/check.log | sed 's/.*replays.//'); c="$c ($(( $(date +%s)-t0 ))s) $v"
fi
git -C $R checkout -q -- .
echo "$1 tests[$miss] demo=$d check=$c"
