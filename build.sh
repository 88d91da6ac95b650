#!/bin/bash
# Builds the simulator against /repo's current working tree (offline).
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export HOME=${HOME:-/root} CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p harness/target
exec 9>harness/target/.lock
flock 9
# never trust file times across copies: compare the sources' contents with what was built last
H=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-64)
if [ "$(cat harness/target/.repo-hash 2>/dev/null)" != "$H" ]; then
  cargo clean --offline --release -p everscale-network --manifest-path harness/Cargo.toml >/dev/null 2>&1
  rm -f "$ROOT/harness/target/.repo-hash"
fi
LOG=harness/target/build.log
if ! cargo build --release --offline --locked --manifest-path harness/Cargo.toml >"$LOG" 2>&1; then
  grep -E '^(error|warning: unused)' -A6 "$LOG" | head -60
  tail -5 "$LOG"
  echo "harness error: the simulator does not build against /repo"
  exit 2
fi
echo "$H" > harness/target/.repo-hash
