#!/bin/bash
# check.sh build            build the harness against /repo's working tree
# check.sh C01 [cases]      run one check (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE      run a replay file again
cd "$(dirname "$0")/harness" || exit 3
export VERIF_HOME="$(cd .. && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
log=$(mktemp /tmp/yaml-verif-build.XXXXXX)
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
# a run-away allocation is an abort of the worker, not the end of the sandbox
ulimit -c 0
ulimit -v 20000000
if [ "$1" = replay ]; then
  exec ./target/release/yaml-subset-verif replay "$2"
fi
exec ./target/release/yaml-subset-verif check "$@"
