#!/bin/bash
# go.sh PROP [SEED TIER BUDGET]: run the concrete replay of one property and print the outcome
D=$(dirname "$(realpath "$0")")
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${CHUMPY_ROOT:-/repo} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
O=$(mktemp)
/opt/pypyvenv/bin/python -W ignore "$D/run.py" "$1" "${2:-1}" "${3:-quick}" "${4:-300}" "$O"
python3 - "$O" <<'P'
import json, sys
r = json.load(open(sys.argv[1]))
print(r['property'], 'evaluations', r.get('evaluations'), 'distinct', r.get('distinct'), 'wall %.1f' % r.get('wall', 0), 'known', r.get('known'))
for f in r['failures']: print('FAIL', f['case'], '\n', f['message'])
sys.exit(1 if r['failures'] else 0)
P
rc=$?; rm -f "$O"; exit $rc
