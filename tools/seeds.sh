#!/bin/bash
# Run checks ($PROPS, default all) on several seeds: seeds.sh 1 2 3
cd "$(dirname "$0")/.." || exit 2
PROPS=${PROPS:-$(python3 -c "import json;print(*json.load(open('tools/checks.json')))")}
for s in "$@"; do for p in $PROPS; do echo "== seed $s $p"; VERIF_SEED=$s python3 tools/check.py $p; done; done
