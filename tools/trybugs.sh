#!/bin/bash
# dev tool: run each planted bug's check against a copy of /repo with it applied:  trybugs.sh [id...]
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  W=$(mktemp -d /tmp/tb.XXXXXX)
  cp -a /repo "$W/w"
  git -C "$W/w" apply "/verif/seeded/$i/patch.diff" || echo "DOES NOT APPLY $i"
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  out=$(PYVER_REPO=$W/w python3-vt check.py "$P" --tier quick 2>&1); rc=$?
  echo "$i $P rc=$rc $(echo "$out" | grep '^VIOLATION' | head -1) $(echo "$out" | grep '^# P.. [a-z]' | head -1 | cut -c1-150)"
  rm -rf "$W"
done
