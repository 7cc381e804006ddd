#!/bin/bash
# Builds the monitors against /repo's current working tree. usage: build.sh [sp] [nosp] [bare] [rand]
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$HERE/build"
exec 9>"$HERE/build/lock"
flock 9
# Cargo decides by time stamps; decide by content too.
now=$( (cd /repo && cat Cargo.toml && find src -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
for cfg in "$@"; do
  dir=$HERE/build/$cfg
  case $cfg in
    sp) crate=harness feat= ;;
    nosp) crate=harness feat="--no-default-features --profile plain" ;;
    bare) crate=bare feat= ;;
    rand) crate=bare feat="--features std,rand,sp" ;;
  esac
  if [ "$(cat "$dir/repo.hash" 2>/dev/null)" != "$now" ]; then
    rm -rf "$dir"/debug/.fingerprint/psbt-v2-* "$dir"/plain/.fingerprint/psbt-v2-*
    rm -f "$dir/repo.hash"
  fi
  if ! (cd "$HERE/$crate" && cargo build --offline --locked --target-dir "$dir" $feat) >"$HERE/build/$cfg.log" 2>&1; then
    grep -E "^(error|warning: unused)" -A6 "$HERE/build/$cfg.log" | head -60
    echo "build of the monitors against /repo failed ($cfg), see $HERE/build/$cfg.log"
    exit 1
  fi
  echo "$now" >"$dir/repo.hash"
done
