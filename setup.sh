#!/bin/bash
# setup.sh [all|target|target-sched|sdk]: builds the checker (and with it nexo's library from /repo's working tree).
#   harness/target        single-thread checks (virtual clock)
#   sdk-harness/out       checks of the TypeScript client (bundled with its sources)
#   harness/target-sched  checks on real threads under the deterministic scheduler (nexo compiled with preemption points)
set -u
V="$(cd "$(dirname "$0")" && pwd)"
exec 9>"$V/harness/.build.lock"; flock 9
export HOME="${HOME:-/root}"
export PATH="$V/harness/npm-stub:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
sdk() { mkdir -p "$V/sdk-harness/out"; bash "$V/sdk-harness/build.sh" "$V/sdk-harness/out/sdk.js" >"$V/sdk-harness/out/build.log" 2>&1 || { tail -n 30 "$V/sdk-harness/out/build.log"; echo "BUILD FAILED"; exit 2; }; }
if [ "${1:-all}" = sdk ]; then sdk; exit 0; fi
mkdir -p /repo/dashboard/dist
cd "$V/harness" || exit 2
# Rebuild on content, not on file times.
sum=$( { cd /repo && find Cargo.toml Cargo.lock build.rs src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-32)
build() {
  export CARGO_TARGET_DIR="$V/harness/$1"
  if [ "$1" = target-sched ]; then export RUSTC_WRAPPER="$V/harness/rustc-sched"; else export RUSTC_WRAPPER=; fi
  if [ "$(cat "$1/nexo.sum" 2>/dev/null)" != "$sum" ]; then
    [ -d "$1" ] && cargo clean --offline -p nexo >/dev/null 2>&1
  fi
  if ! cargo build --offline >"$1.log" 2>&1; then
    grep -A15 "^error" "$1.log" | head -n 60; echo "BUILD FAILED"; exit 2
  fi
  echo "$sum" > "$1/nexo.sum"
}
case "${1:-all}" in
all) build target; build target-sched; sdk ;;
*) build "$1" ;;
esac
