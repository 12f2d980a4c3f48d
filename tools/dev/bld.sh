cd /verif/sim
CARGO_TARGET_DIR=/tmp/simrel cargo build --release --offline 2>&1 | grep -E "^error" -A9 | head -60
CARGO_TARGET_DIR=/tmp/simrel cargo build --profile dbg --features instruments --offline 2>&1 | grep -E "^error" -A9 | head -60
CARGO_TARGET_DIR=/tmp/simrel/par cargo build --release --offline --features parallel 2>&1 | grep -E "^error" -A9 | head -60
