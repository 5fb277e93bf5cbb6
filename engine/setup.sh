#!/bin/sh
# Nothing to install: every check builds what it needs.  Fails early when a tool is missing.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3'
cargo --version >/dev/null
mkdir -p evidence .build
