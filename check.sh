#!/bin/bash
# check.sh <property id>: build the simulator against /repo's current working tree and run the check.
# Exit 0: held on everything explored. 1: a line "VIOLATION property=<id> replay=<path>". Else: error.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints warn" VERIF_ROOT="$here"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$here/harness" || exit 2
log=$(mktemp) || exit 2
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "error: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ "$1" = replay ] && exec ./target/release/pkstl-sim replay "$2"
exec ./target/release/pkstl-sim check "$1"
