#!/bin/bash
# builds the harness once (every check rebuilds it from /repo's working tree anyway)
cd "$(dirname "$0")/../harness" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p ../build ../evidence
RUSTFLAGS='--cfg yam_verif' CARGO_TARGET_DIR=../build/target cargo build --offline --locked
