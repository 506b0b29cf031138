#!/bin/bash
# Builds what the checks share: the extractor, the oracle, and the expansion of /repo's crate.
set -e
cd "$(dirname "$0")"
mkdir -p build
(cd extract && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/extract cargo build --release --offline --quiet)
(cd oracle && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../build/oracle cargo build --offline --quiet --profile oracle)
