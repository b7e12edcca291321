export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
