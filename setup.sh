#!/bin/bash
# Builds the harness once (offline), so that the crates it needs are compiled.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export CARGO_TARGET_DIR=${KVERIF_TARGET:-$here/harness/target}
build() { cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" "$@" 2>&1; }
build || exit
# The checks of private parts have the hooks on, in a build of their own.
export RUSTFLAGS="--cfg kverif" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/hooked
build --no-default-features --features inner || true
