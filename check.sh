#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the explorer against /repo's current tree and runs one property.
set -u
P=${1:?usage: check.sh PROPERTY [quick|thorough]}
T=${2:-quick}
H=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export PATH="$CARGO_HOME/bin:$PATH" CARGO_TARGET_DIR="$H/target" VERIF_DIR="$H"
[ -d "$RUSTUP_HOME/toolchains/stable-x86_64-unknown-linux-gnu" ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
LOG="$H/target/build-$P.log"
mkdir -p "$H/target" "$H/evidence"
if ! cargo build --release --offline --manifest-path "$H/mc/Cargo.toml" >"$LOG" 2>&1; then
  tail -n 40 "$LOG" >&2
  echo "cannot build the explorer" >&2
  exit 2
fi
case "$P" in setup|C09|C12|C13|C14|C15|C16|C18|C19)
  # the real executable
  if ! CARGO_TARGET_DIR="$H/target/bin" CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
      cargo build --release --offline --manifest-path /repo/Cargo.toml --bin svgcleaner >"$LOG" 2>&1; then
    tail -n 40 "$LOG" >&2
    echo "cannot build the executable" >&2
    exit 2
  fi
  if ! gcc -O1 -shared -fPIC -o "$H/target/shim-$$.so" "$H/mc/shim.c" -ldl >"$LOG" 2>&1; then
    tail -n 40 "$LOG" >&2
    exit 2
  fi
  mv "$H/target/shim-$$.so" "$H/target/shim.so"
esac
[ "$P" = setup ] && exit 0
exec "$H/target/release/mc" check "$P" --tier "$T"
