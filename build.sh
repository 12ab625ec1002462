#!/bin/bash
# Builds the simulator and the program of /repo's working tree (linked with the
# simulated environment).  Usage: build.sh [inst]   (inst: also the build with
# scheduling points in the crate's own code).  Everything lands in target/.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target; log="$PWD/target/build.log"
exec 9>target/.lock
flock 9
run() {
  if ! "$@" >"$log" 2>&1; then
    echo "build failed: $*" >&2
    tail -40 "$log" >&2
    exit 2
  fi
}
( cd sim && run cargo build --release --target-dir ../target/sim ) || exit 2
run node/gen.sh
( cd node && run cargo build --release --target-dir ../target/node ) || exit 2
if [ "$1" = inst ]; then
  ( cd node && run cargo rustc --release --bin rust --target-dir ../target/inst -- --cfg vsim -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores -Ccodegen-units=1 ) || exit 2
fi
