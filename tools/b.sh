#!/bin/bash
# Builds the harness from /repo's current tree.
. /verif/tools/env.sh
cargo build --release --offline --manifest-path /verif/harness/Cargo.toml 2>&1 | grep -E "^(error|warning: unused)|-->|Finished" | head -${1:-20}
