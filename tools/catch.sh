#!/bin/bash
# catch.sh ID [PROP...]: does the check of the property see the planted bug?
cd /verif
for id in $1; do
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
python3 bin/check.py $p > work/catch.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id: $p rc=$rc $(grep -m1 -B1 VIOLATION work/catch.out | head -1)"; [ $rc = 2 ] && tail -5 work/catch.out
done
