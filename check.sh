#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the simulator from /repo's working tree and explores one property.
# Exit 0: held on everything explored; 1: VIOLATION printed; 2: error.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
variant=epoll
case $prop in
    H23) variant=select ;;
    H29) variant=prefork ;;
esac
case $tier in
    thorough) secs=${VSIM_SECS:-600} runs=${VSIM_RUNS:-50000000} ;;
    *) tier=quick secs=${VSIM_SECS:-25} runs=${VSIM_RUNS:-20000} ;;
esac
mkdir -p .build evidence replays || exit 2
(
    flock 9
    python3 sim/build.py $variant
) 9>.build/lock || { echo "cannot build the simulator from /repo" >&2; exit 2; }
level=exploration
exec .build/vsim-$variant check "$prop" --tier $tier --seed "$seed" --jobs "$(nproc)" --runs "$runs" --secs "$secs" \
    --evidence evidence/$prop.json --known known_findings.txt --replays replays --level $level --components sim/components.json
