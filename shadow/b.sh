export CARGO_TARGET_DIR=/verif/build VERIF=/verif; bash /verif/shadow/extract.sh && cd /verif/build/shadow && cargo build --release --offline ${1:+--bin $1} 2>&1 | grep -E "^error" -A12 | cut -c1-220 | head -${2:-60}
