#!/bin/bash
# catch.sh ID [PROPERTY]: run the check of the seeded change's property against a scratch copy with the change
for i in $1; do
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
mkdir -p /tmp/s/cache; rm -rf /tmp/s/bug; git clone -q /repo /tmp/s/bug
(cd /tmp/s/bug && git apply /verif/seeded/$i/patch.diff) || exit 9
VERIF_CACHE=/tmp/s/cache VERIF_REPO=/tmp/s/bug python3 /verif/check.py $p > /tmp/s/$i.$p.log 2>&1; echo "$i $p rc=$? $(grep VIOLATION /tmp/s/$i.$p.log)"; grep -v "^VIOL" /tmp/s/$i.$p.log | tail -${L:-6}
done
