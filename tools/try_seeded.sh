#!/bin/bash
# Run the quick check of each planted bug's property against a patched scratch
# copy of /repo (VP_REPO), and print caught / MISSED.   usage: try_seeded.sh [id...]
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  d=$(mktemp -d /tmp/ts.XXXXXX)
  git -C /repo archive HEAD | tar x -C "$d"
  (cd "$d" && git init -q && git apply --whitespace=nowarn "$OLDPWD/seeded/$i/patch.diff")
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  out=$(VP_REPO=$d /opt/venv/bin/python run.py "$p" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "caught $i $p $(grep -m1 -o 'harness=[^ ]*\|VIOLATION.*' <<<"$out" | head -c 160)"; else echo "MISSED $i $p rc=$rc $(tail -n1 <<<"$out" | head -c 200)"; fi
  rm -rf "$d"
done
