#!/bin/bash
# tryseed.sh [GLOB]: run the check of each planted change's property on a scratch copy carrying that change
. /opt/vp/env.sh; export GOFLAGS=-mod=mod
(cd /verif/gov && go build -o /tmp/gov .) || exit 1
for d in /verif/seeded/${1:-*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/trycopy; cp -a /repo /tmp/trycopy
  (cd /tmp/trycopy && git apply $d/patch.diff) || { echo "$id APPLY FAILED"; continue; }
  out=$(cd /verif && /tmp/gov -prop $p -repo /tmp/trycopy 2>&1); rc=$?
  echo "$id rc=$rc $(echo "$out" | grep -E '^VIOLATION' | head -2 | tr '\n' ' ')"
done
rm -rf /tmp/trycopy
