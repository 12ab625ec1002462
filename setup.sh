#!/bin/bash
cd "$(dirname "$0")" || exit 2
./build.sh inst && target/sim/release/vsim selftest
