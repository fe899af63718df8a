export CARGO_TARGET_DIR="$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")/sim/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never TZ=UTC
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
export RUST_MIN_STACK=4194304
# Every source file of the code under test: a change to any of them rebuilds it, whatever its time stamp.
export REPO_HASH=$(cd /repo && find trading-engine/src quantlib/src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
build() {
  local log="$CARGO_TARGET_DIR/build-$1.log"
  mkdir -p "$CARGO_TARGET_DIR"
  (cd sim && cargo build --offline --locked -q -p "$1") >"$log" 2>&1 || { grep -E '^error' -A12 "$log" | head -60 >&2; return 1; }
}
