#!/bin/bash
# Build the harness (and, with --cli, the rekordcrate binary) from /repo's current working tree.
# Rebuilds are decided by content, not by time stamps.
set -e
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.96-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_RELEASE_DEBUG CARGO_INCREMENTAL
T=$V/target
mkdir -p "$T"
exec 9>"$T/.lock"
flock 9
sum() { (cd /repo && find src Cargo.toml Cargo.lock build.rs -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V/harness" && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum; }
now=$(sum)
log=$T/build.log
if [ "$(cat "$T/.stamp-vh" 2>/dev/null)" != "$now" ] || [ ! -x "$T/release/vh" ]; then
  rm -f "$T/.stamp-vh"
  (cd "$V/harness" && export CARGO_TARGET_DIR=$T && cargo clean --release -q -p rekordcrate -p vh >/dev/null 2>&1; 
    # With the verification hooks (C22); should they not fit the source any more, without them.
    RUSTFLAGS="--cfg rekordcrate_verif" cargo build --offline --locked --release || cargo build --offline --locked --release) >"$log" 2>&1 || { cat "$log" >&2; echo "build of the harness failed" >&2; exit 2; }
  echo "$now" >"$T/.stamp-vh"
fi
if [ "$1" = --cli ]; then
  if [ "$(cat "$T/.stamp-cli" 2>/dev/null)" != "$now" ] || [ ! -x "$T/cli/debug/rekordcrate" ]; then
    rm -f "$T/.stamp-cli"
    (cd /repo && export CARGO_TARGET_DIR=$T/cli CARGO_PROFILE_DEV_DEBUG=line-tables-only && cargo clean -q -p rekordcrate >/dev/null 2>&1; cargo build --offline --locked --bin rekordcrate) >"$log" 2>&1 || { cat "$log" >&2; echo "build of the rekordcrate binary failed" >&2; exit 2; }
    echo "$now" >"$T/.stamp-cli"
  fi
fi
