#!/bin/bash
# tools/tryseed.sh ID...: run the check of each planted bug on a scratch copy
# of /repo with the bug applied
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  R=$(mktemp -d /tmp/try_XXXXXX)
  git clone -q "${VERIF_REPO:-/repo}" "$R/repo"
  git -C "$R/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_REPO=$R/repo VERIF_EV=$R/ev python3 check.py "$p" > /tmp/try_$id.log 2>&1; rc=$?
  rm -rf "$R"
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/try_$id.log) violations: $(grep ^VIOLATION /tmp/try_$id.log | head -2 | tr '\n' ' ')"
done
