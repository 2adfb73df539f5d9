#!/bin/bash
# Builds the extractor and the oracles from the committed files, offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p .build evidence
(cd tools/extract && CARGO_TARGET_DIR=/verif/.build/extract cargo build --release --offline)
(cd oracle && CARGO_TARGET_DIR=/verif/.build/oracle cargo build --release --offline)
if [ -d oracle_top ]; then
  (cd oracle_top && CARGO_TARGET_DIR=/verif/.build/oracle_top cargo build --release --offline)
fi
