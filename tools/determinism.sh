#!/bin/bash
# The event logs of runs must not depend on how they are spread over
# processes, nor on hash seeds: compares their digests.
# usage: determinism.sh [RUNS] [PROP ...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-200}; shift
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}
bad=0
for p in $props; do
    a=$(PYTHONHASHSEED=0 python3 check.py $p --digests $n --nproc 8 2>&1)
    b=$(PYTHONHASHSEED=4711 python3 check.py $p --digests $n --nproc 3 2>&1)
    if [ "$a" = "$b" ] && [ -n "$a" ]; then
        echo "$p: $n runs, same digests"
    else
        echo "$p: DIFFER"; diff <(echo "$a") <(echo "$b") | head -6; bad=1
    fi
done
exit $bad
