#!/bin/bash
# Builds the simulator, the driver and the program under test (from /repo's working tree).
set -e
here=$(cd "$(dirname "$0")" && pwd)
b="$here/build"
mkdir -p "$b"
if [ ! -e "$b/libsim.so" ] || [ "$here/sim/preload/sim.c" -nt "$b/libsim.so" ]; then
    gcc -O2 -Wall -Wextra -shared -fPIC -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 \
        -o "$b/libsim.so.new" "$here/sim/preload/sim.c" -ldl -lpthread
    mv "$b/libsim.so.new" "$b/libsim.so"
fi
export CARGO_NET_OFFLINE=true
cargo build -q --release --offline --manifest-path "$here/sim/Cargo.toml" --target-dir "$b/sim"
# the program is always compiled anew: time stamps of the working tree are not trusted
rm -rf "$b"/repo/release/.fingerprint/reqtrace-* "$b"/repo/release/reqtrace
cargo build -q --release --offline --manifest-path /repo/Cargo.toml --target-dir "$b/repo" --bin reqtrace
