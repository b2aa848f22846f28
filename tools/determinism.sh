#!/bin/bash
# One seed is one execution: compares the digests of all step logs between 3 and 8 workers, and
# between one execution and another. tools/determinism.sh [scenarios per check]
here=$(cd "$(dirname "$0")/.." && pwd)
bash "$here/build.sh" || exit 4
d=$(mktemp -d /tmp/vsim-det.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp "$here/known_findings.txt" "$d/"
export VSIM_VERIF="$d" VSIM_BINARY="$here/build/repo/release/reqtrace" VSIM_LIB="$here/build/libsim.so" VSIM_RUNS=${1:-400}
rc=0
for i in $("$here/build/sim/release/vsim" list | cut -c1-3); do
    all=
    for w in 3 8 8; do
        VSIM_WORKERS=$w "$here/build/sim/release/vsim" check "$i" >/dev/null 2>&1
        all="$all $(grep -o '"execution_digest": "[0-9a-f]*"' "$d/evidence/$i.json" | cut -d'"' -f4)"
    done
    if [ "$(printf '%s\n' $all | sort -u | wc -l)" = 1 ]; then echo "$i same$all"; else echo "$i DIFFERENT$all"; rc=1; fi
done
exit $rc
