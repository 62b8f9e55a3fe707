#!/bin/bash
# Build everything the checks need, offline.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/build"
mkdir -p "$here/build" "$here/evidence"
export VERIF="$here"
(cd "$here/vc" && cargo build --release --offline --locked) || exit 1
bash "$here/shadow/extract.sh" && (cd "$here/build/shadow" && cargo build --release --offline --locked)
