#!/bin/bash
# extract.sh: build/shadow = extraction of /repo's current numeric modules + the stand-in types
v="$(cd "$(dirname "$0")/.." && pwd)"
o="$v/build/shadow"
mkdir -p "$o/src/bin" "$o/src/contracts"
(cd "$v/extract" && cargo build -q --release --offline --locked) || exit 1
"$v/build/release/extract" /repo "$o/src.new" "$v/shadow/append" || exit 1
sed "s|@VERIF@|$v|" "$v/shadow/Cargo.toml.in" > "$o/Cargo.toml"
cp "$v/shadow/Cargo.lock" "$o/Cargo.lock" 2>/dev/null
# copy only what changed, so that nothing is rebuilt needlessly
up() { mkdir -p "$(dirname "$2")"; cmp -s "$1" "$2" || cp "$1" "$2"; }
(cd "$o/src.new" && find . -name '*.rs') | while read -r f; do up "$o/src.new/$f" "$o/src/$f"; done
for f in lib.rs shim.rs stub.rs world.rs; do up "$v/shadow/src/$f" "$o/src/$f"; done
for f in "$v"/shadow/src/bin/*.rs; do up "$f" "$o/src/bin/$(basename "$f")"; done
