#!/bin/bash
# Builds the checkers once (checks rebuild whatever changed in /repo).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target"
cd "$here/mc"
cargo build -q --offline --locked --profile checked
cargo build -q --offline --locked --profile release
cd "$here/conc"
cargo build -q --offline --locked --profile release
