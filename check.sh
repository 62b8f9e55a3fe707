#!/bin/bash
# check.sh <property>: rebuild the contracts of one property against /repo's working tree and decide it.
# Exit 0 held, 1 violation, 2 check error.
here="$(cd "$(dirname "$0")" && pwd)"
p="$1"
bin="$(echo "$p" | tr 'A-Z' 'a-z')"
export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/build" VC_OUT="$here/evidence"
mkdir -p "$here/build" "$here/evidence"
# rebuild on content, not on time stamps
h="$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$here/build/.srchash" 2>/dev/null)" != "$h" ]; then
  (cd "$here/vc" && cargo clean -q --release --offline -p cgar >/dev/null 2>&1)
  echo "$h" > "$here/build/.srchash"
fi
log="$here/build/build-$bin.log"
export VERIF="$here"
run="$bin"
case "$p" in
C02|C03)
  # proved on the extraction of the numeric modules; if that cannot be built, only the bounded part is run
  if ! { bash "$here/shadow/extract.sh" && (cd "$here/build/shadow" && cargo build --release --offline --locked --bin "$bin"); } >"$log" 2>&1; then
    echo "note: the extraction of the numeric modules does not build, nothing is proved on this run"
    grep -E "^error" -A6 "$log" | head -20
    run="${bin}b"
    (cd "$here/vc" && cargo build --release --offline --locked --bin "$run") >"$log" 2>&1 || run=
  fi ;;
*)
  (cd "$here/vc" && cargo build --release --offline --locked --bin "$bin") >"$log" 2>&1 || run= ;;
esac
if [ -z "$run" ]; then
  grep -E "^error" -A12 "$log" | head -60
  echo "check error: contracts of $p do not build against /repo"
  exit 2
fi
export VC_REPORT="$here/build/report-$bin.txt"
: > "$VC_REPORT"
"$here/build/release/$run" >/dev/null
r=$?
cat "$VC_REPORT"
exit $r
