#!/bin/bash
# bash tools/replay.sh <replay file>: runs the one failing case again.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cargo build --release --offline --manifest-path "$VERIF_ROOT/harness/Cargo.toml" >&2 || exit 2
exec "$CARGO_TARGET_DIR/release/hdmon" replay "$1"
