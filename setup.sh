#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ python3-vt; do command -v "$t" >/dev/null; done
mkdir -p evidence build replays
python3-vt -c 'import scipy, numpy, mpmath'
echo ready
