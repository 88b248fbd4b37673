#!/bin/bash
# C01: interprets the workloads under Miri. Called by run.sh.
cd "$(dirname "$0")" || exit 2
exec python3 tools/miri.py "${1:-quick}"
