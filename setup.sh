#!/bin/bash
# Builds the harnesses once (each check rebuilds what it needs on its own as well)
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/rs/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$root/target
for c in mc mcs mcc mct; do (cd "$root/$c" && cargo build --offline --locked) || exit 1; done
