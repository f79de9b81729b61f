#!/bin/bash
# Checks build what they need themselves; this only verifies that the toolchain pieces are there.
set -e
cd "$(dirname "$0")"
python3 -m compileall -q check.py lib >/dev/null
cargo --version && cargo kani --version && verus --version | head -2
