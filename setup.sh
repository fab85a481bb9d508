#!/bin/bash
# Builds the monitors once from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build" "$here/evidence"
cd "$here/harness" && CARGO_TARGET_DIR="$here/.build" CARGO_NET_OFFLINE=true cargo build --offline --quiet
