#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds from /repo's working tree, then searches (VERIF_SEED, VERIF_TIER).
cd /verif || exit 2
./build.sh >/verif/sim/build.log 2>&1 || { cat /verif/sim/build.log >&2; echo "build failed" >&2; exit 2; }
export RUST_BACKTRACE=0
[ -n "$2" ] && export VERIF_TIER="$2"
exec ./sim/target/debug/geos-dst check "$1"
