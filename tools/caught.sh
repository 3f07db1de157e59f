#!/bin/bash
# caught.sh [ID...]: runs the quick check of each planted bug's property against
# the patched tool (built in a scratch copy) and tells whether it is detected.
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"
for d in /verif/seeded/*/; do
  id=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  [ $# -gt 0 ] && [[ ! " $* " == *" $id "* ]] && continue
  git -C "$W/r" checkout -q -- . && git -C "$W/r" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  VERIF_REPO="$W/r" VERIF_EVID="$W/e" timeout 900 /verif/check.sh "$p" quick > "$W/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' "$W/out") $(grep -o '^  \[[^]]*\]' "$W/out" | sort -u | tr -d '\n')"
done
