#!/bin/bash
# Builds the conformance drivers against /repo's working tree.
set -e
cd "$(dirname "$0")/../harness"
. ../tools/env.sh
cargo build --offline --locked -p vte -p vql
java -version 2>&1 | head -1
