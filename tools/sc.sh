#!/bin/bash
# sc.sh ID... : own property's check on /tmp/seed/ID
for i in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
cd /verif
t=$(date +%s); VERIF_REPO=/tmp/seed/$i timeout 850 ./check $P --seed ${SEED:-1} > /tmp/seed/$i.chk 2>&1; rc=$?
echo "$i $P rc=$rc $(( $(date +%s)-t ))s $(grep -m1 '^#' /tmp/seed/$i.chk | cut -c1-150) $(grep -m2 -E 'inconclusive|error' /tmp/seed/$i.chk | cut -c1-200)"
done
