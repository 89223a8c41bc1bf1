#!/bin/bash
# Builds the extractor and the search harness (offline).
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$PWD/target}" CARGO_NET_OFFLINE=true
(cd extractor && cargo build --offline -q)
(cd harness && cargo build --offline -q)
(cd cli && cargo build --offline -q)
