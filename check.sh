#!/bin/bash
# check.sh Cnn quick|thorough: rebuild the simulator against /repo's working tree and run the check of one property
set -u
cd "$(dirname "$0")"
tier=${2:-quick}
if [ "$1" = build ] || [ "${1#C}" != "$1" ]; then
  # never trust time stamps: the library is always compiled anew
  rm -rf sim/target/release/.fingerprint/faerie-[0-9a-f]* 
  # (second try: without the instrumentation of memory accesses)
  if ! (cd sim && { cargo build --release --offline 2>sim-build.log || CARGO_BUILD_RUSTC_WRAPPER= cargo build --release --offline 2>sim-build.log; }); then cat sim/sim-build.log >&2; echo "the simulator does not build against /repo" >&2; exit 3; fi
fi
[ "$1" = build ] && exit 0
exec sim/target/release/faerie-sim check "$1" --tier "$tier" --root "$PWD"
