#!/bin/bash
# mutest.sh COPY_DIR [tests...]  - run the stable tests against a scratch copy of /repo; prints stable tests that do not pass
D=$(realpath "$1"); shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
REP=$(mktemp -d); trap 'rm -rf "$REP"' EXIT
cd "$D" || exit 2
T=${*:-tests --ignore=tests/test_error_handling.py --ignore=tests/test_gridded_preprocessing.py --ignore=tests/test_unstructured_preprocessing.py --ignore=tests/test_integration.py}
timeout -k 10 1200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${NJ:-8} --dist loadfile --timeout=200 -o junit_family=xunit2 --junitxml="$REP/junit.xml" $T >"$REP/log" 2>&1
/opt/venv/bin/python /opt/vp/results.py "$REP/out.json" "junit:$REP/junit.xml" >/dev/null
/opt/venv/bin/python - "$REP/out.json" "$#" <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
p=set(o['passed']); f=set(o.get('failed',[]))
bad=sorted(b-p) if sys.argv[2]=='0' else sorted(b&f)
print('stable', len(b), 'passed', len(b&p), 'not passing:', bad)
sys.exit(1 if bad else 0)
PY
