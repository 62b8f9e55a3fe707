#!/bin/bash
# Builds main.rs (next to this file) against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh 2>/dev/null
cd "$repo" || exit 2
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\ncgar = { path = "%s" }\nrug = "=1.27.0"\nnum-traits = "*"\nahash = "*"\nsmallvec = "*"\n[workspace]\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run -q --offline 2>"$d/log"
r=$?
[ $r -eq 0 ] || tail -5 "$d/log"
exit $r
