#!/bin/bash
# Builds the simulator variants once (checks rebuild incrementally).
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence replays
python3 sim/build.py epoll select prefork
for v in epoll select prefork; do .build/vsim-$v list >/dev/null; done
