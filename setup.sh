#!/bin/bash
# Nothing has to be installed: every check compiles its harness from /repo's working tree itself.
cd "$(dirname "$0")" && mkdir -p build evidence replays && chmod +x check.py
command -v clang++ >/dev/null || { echo "clang++ is missing"; exit 1; }
echo ready
