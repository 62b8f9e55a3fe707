cd /verif/vc && CARGO_TARGET_DIR=/verif/build CARGO_NET_OFFLINE=true cargo build --release --offline ${1:+--bin $1} 2>&1 | grep -E "^error" -A9 | head -${2:-60}
