#!/bin/bash
# builds the extractor and the replay harness, offline
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
(cd extract && env -u RUSTFLAGS cargo build --offline --release --quiet)
bash tools/build_harness.sh
