#!/bin/bash
# usage: replay.sh <replay file> [-v]   reproduces a recorded violation on /repo's working tree
cd "$(dirname "$0")" || exit 2
f=$(realpath "$1"); shift
variant=epoll
grep -q '^plan prop=H23' "$f" && variant=select
grep -q '^plan prop=H29' "$f" && variant=prefork
mkdir -p .build; python3 sim/build.py $variant || exit 2
exec .build/vsim-$variant replay "$f" "$@"
