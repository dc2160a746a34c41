#!/bin/bash
# tryseed.sh SEED: apply one planted bug to the repository, run its property's check, undo
H=$(cd "$(dirname "$0")/.." && pwd); R=${VF_REPO:-/repo}
s=$1; p=$(python3 -c "import json;print(json.load(open('$H/seeded/$s/meta.json'))['property'])")
git -C $R apply $H/seeded/$s/patch.diff || exit 9
st=$(date +%s)
cd $H && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p quick > /tmp/try_$s.log 2>&1; rc=$?
git -C $R checkout -- .
echo "$s rc=$rc $(( $(date +%s)-st ))s"; grep -E '^VIOLATION' /tmp/try_$s.log | head -5
