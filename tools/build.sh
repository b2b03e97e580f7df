#!/bin/bash
# Builds the harness against /repo's working tree. Offline; output in /verif/target (ignored by git).
set -e
cd "$(dirname "$0")/../harness"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$(cd .. && pwd)/target"
exec cargo build --offline "$@"
