#!/bin/bash
# st.sh ID... : stable tests on /tmp/seed/ID, one after the other
for i in "$@"; do
cd /tmp/seed/$i || continue
export HOME=/root MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/tmp/seed/$i:/opt/vp
timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p order_slow_first --timeout=400 --continue-on-collection-errors -n 8 --maxschedchunk 1 -W ignore::DeprecationWarning -o junit_family=xunit2 --junitxml=/tmp/seed/$i.xml tests > /tmp/seed/$i.log 2>&1
/usr/bin/python3 /opt/vp/results.py /tmp/seed/$i.json junit:/tmp/seed/$i.xml >/dev/null
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed/$i.json'));p=set(o['passed'])
print('$i tests failing:',[t for t in b['stable'] if t not in p])"
done
