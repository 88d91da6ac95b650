#!/bin/bash
# Demonstration: exit 0 when the behaviour in demo.rs holds in the tree it is run in, 1 when not.
# The first line of demo.rs says where it goes: "// at: tests" for an integration test, or the
# source file whose private items it needs. All work is done in a scratch copy.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
S=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'case "$S" in /tmp/demo.????????) rm -rf "$S";; esac' EXIT
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
cp -a "$REPO/src" "$REPO/examples" "$REPO/Cargo.toml" "$S/" || exit 2
[ -f "$REPO/Cargo.lock" ] && cp -a "$REPO/Cargo.lock" "$S/"
# reuse the compiled dependencies, not the crate itself
if [ -d "$REPO/target/debug/deps" ]; then
  mkdir -p "$S/target/debug"
  for d in deps build .fingerprint; do
    mkdir -p "$S/target/debug/$d"
    (cd "$REPO/target/debug/$d" && find . -mindepth 1 -maxdepth 1 ! -name '*everscale*network*' ! -name '*.d' \
      ! -name '*adnl-*' ! -name '*rldp-*' ! -name '*dht-*' ! -name '*overlay_*' -print0 \
      | xargs -0 -r cp -a -t "$S/target/debug/$d")
  done
  (cd "$REPO/target/debug/deps" && find . -maxdepth 1 -name '*.d' ! -name '*everscale_network*' -print0 | xargs -0 -r cp -a -t "$S/target/debug/deps")
fi
AT=$(sed -n '1s#^// at: ##p' "$HERE/demo.rs")
cd "$S" || exit 2
if [ "$AT" = tests ]; then
  mkdir -p tests && cp "$HERE/demo.rs" tests/demo.rs
  timeout -k 5 280 cargo test --offline --test demo -- --test-threads 1 --nocapture
else
  cp "$HERE/demo.rs" "$S/demo.rs"
  printf '\n#[cfg(test)]\nmod vp_demo {\n    use super::*;\n    include!("%s/demo.rs");\n}\n' "$S" >> "$AT"
  timeout -k 5 280 cargo test --offline --lib vp_demo -- --test-threads 1 --nocapture
fi > "$S/out" 2>&1
RC=$?
tail -n 25 "$S/out"
if grep -qE 'test result: ok. [1-9][0-9]* passed' "$S/out" && [ $RC = 0 ]; then exit 0; fi
exit 1
