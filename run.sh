#!/bin/bash
# run.sh <property>: rebuilds from /repo's working tree and runs one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: harness trouble.
cd "$(dirname "$0")" || exit 2
start=$(date +%s)
case "$1" in
  C07|C15) ./build.sh inst || exit 2 ;;
  *) ./build.sh || exit 2 ;;
esac
export VSIM_BUILD_S=$(( $(date +%s) - start ))
exec target/sim/release/vsim check "$@"
