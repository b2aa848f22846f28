#!/bin/bash
# check.sh ID: decides one property for /repo's working tree.
# Exit 0: held on everything explored; 1: VIOLATION line; anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp /tmp/vsim-build.XXXXXX)
if ! bash "$here/build.sh" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the build failed" >&2
    exit 4
fi
rm -f "$log"
export VSIM_VERIF="$here" VSIM_BINARY="$here/build/repo/release/reqtrace" VSIM_LIB="$here/build/libsim.so"
exec "$here/build/sim/release/vsim" check "$1"
