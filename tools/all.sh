#!/bin/bash
# usage: tools/all.sh [quick|thorough] [ids...]: runs the registered checks one after another
cd "$(dirname "$0")/.."; t=${1:-quick}; shift
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for i in $ids; do VERIF_SEED=1 VERIF_TIER=$t ./check.sh $i $t; echo "== $i exit $?"; done
