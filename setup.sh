#!/bin/bash
# Nothing to install: every check builds its harnesses from /repo's working tree.
set -e
cd "$(dirname "$0")"
gcc --version >/dev/null; python3 -c 'import json'
mkdir -p build evidence replays
echo ready
