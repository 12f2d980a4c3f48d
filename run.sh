#!/bin/bash
# usage: run.sh build | run.sh ID [thorough] | run.sh replay FILE    (from /verif)
# Builds the simulator against /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
mkdir -p "$here/target/par"
build() { # name, package dir, further cargo arguments
    local log="$here/target/$1.log"
    (cd "$here/$2" && shift 2 && cargo build --offline --quiet "$@") >"$log" 2>&1 || {
        echo "build failed ($1):"
        grep -E '^error' -A8 "$log" | head -60
        return 1
    }
}
sim() { build sim sim --release --bin starksim; }
# the command line and the seam between it and the system (C11)
cli() {
    build cli sim --release --bin lwcli && gcc -O1 -shared -fPIC -o "$here/target/release/libfaultio.so" "$here/sim/faultio.c"
}
# the parallel build, and the one with debug checks (C10)
par() { CARGO_TARGET_DIR="$here/target/par" build par sim --release --features parallel --bin starksim; }
dbg() { build dbg sim --profile dbg --features instruments --bin starksim; }
all() { # every build, side by side
    par & local p=$!
    sim && dbg
    local rc=$?
    wait $p && return $rc
}
id=${1:-build}
[ "$id" = replay ] && id=$(grep -o '"property": *"C[0-9]*"' "$2" | grep -o 'C[0-9]*')
bin="$here/target/release/starksim"
case "$id" in
    build) all && cli || exit 2; exit 0 ;;
    C11) sim && cli || exit 2 ;;
    C10) all || exit 2; bin="$here/target/par/release/starksim" ;;
    C13) dbg || exit 2; bin="$here/target/dbg/starksim" ;;
    *) sim || exit 2 ;;
esac
export VERIF_ROOT="$here"
[ "$1" = replay ] && exec "$bin" replay "$2"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
exec "$bin" check "$id"
