#!/bin/sh
# Nothing to install: the checks need python3 and the toolchain of the project only.  Warm the build cache (optional).
cd "$(dirname "$0")" && mkdir -p evidence replays build && python3 analysis/dump.py >/dev/null 2>&1
exit 0
