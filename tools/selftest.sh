#!/bin/bash
# determinism: the same runs with different worker counts and hash seeds give the same digests
# usage: selftest.sh [CASES] [PROPERTY...]
cd "$(dirname "$0")/.." || exit 2
N=${1:-60}; shift
PS=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}
T=$(mktemp -d) rc=0
for p in $PS; do
    ./check $p --no-evidence --cases $N --workers 8 --digests $T/a >$T/oa 2>&1
    SIM_HASHSEED=77 ./check $p --no-evidence --cases $N --workers 3 --digests $T/b >$T/ob 2>&1
    if cmp -s $T/a $T/b && [ -s $T/a ]; then echo "$p same ($(wc -l <$T/a) runs)"; else echo "$p DIFFERS: $(diff $T/a $T/b | head -2 | tr '\n' ' ')"; rc=1; fi
done
rm -rf "$T"
exit $rc
