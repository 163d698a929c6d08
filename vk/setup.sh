#!/bin/bash
# Builds the harness from the committed files (every check builds it again
# from /repo's current tree).
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence build
source /opt/vp/env.sh 2>/dev/null || true
cd harness
cargo build --offline --target-dir ../build/target
