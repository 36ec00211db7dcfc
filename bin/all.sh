#!/bin/sh
# run every check of a tier and print one line each:  bin/all.sh quick [C01 C02 ..]
cd "$(dirname "$0")/.."; T=${1:-quick}; shift 2>/dev/null
for i in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  python3 bin/check.py $i --tier $T > build/out.$i.$T 2>&1; echo "exit $? $(tail -1 build/out.$i.$T)"; grep -v "^C" build/out.$i.$T | cut -c1-300 | head -5
done
