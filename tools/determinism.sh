#!/bin/bash
# determinism.sh [RUNS] [PROPERTY...]: the same seeds under different hash seeds and process counts give the same event digests
cd "$(dirname "$0")/.." || exit 2
N=${1:-20}; shift
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
bad=0
for p in ${*:-$(/opt/venv/bin/python -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
    SIM_HASHSEED=0 bash check.sh "$p" --runs "$N" --budget 600 --jobs 8 --digests "$D/a" >/dev/null
    SIM_HASHSEED=${OTHER_HASHSEED:-0} bash check.sh "$p" --runs "$N" --budget 600 --jobs 3 --digests "$D/b" >/dev/null
    if cmp -s "$D/a" "$D/b"; then echo "$p: $N runs repeat exactly"; else echo "$p: DIFFERS"; diff "$D/a" "$D/b"; bad=1; fi
done
exit $bad
