#!/bin/bash
# check.sh ID            run the check of one property (VERIF_TIER=quick|thorough)
# check.sh --replay FILE run again the part of an exploration a violation came from
# check.sh --setup       build everything once
# Exit 0: held on everything explored; 1: VIOLATION printed; 2: no verdict.
set -u
cd /verif || exit 2
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC RUSTDOC CARGO_INCREMENTAL
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p work evidence target
ulimit -v 26000000 2>/dev/null
ulimit -c 0

. /verif/tools/build.sh

dispatch() {
  case "$1" in
    C06) build_mt && exec /verif/target/mt/x86_64-unknown-linux-gnu/release/mt check ;;
    C18) build_mc && build_mac && exec /verif/target/mc/release/mac check C18 ;;
    C19) build_modes && modes ;;
    C20) build_st && exec /verif/target/st/release/st check C20 ;;
    C21|C22|C23|C24) build_ex && exec /verif/target/ex/release/ex check "$1" ;;
    C25|C26|C27) build_us && exec /verif/target/us/release/us check "$1" ;;
    *) build_mc && exec /verif/target/mc/release/mc check "$1" ;;
  esac
  exit 2
}

case "${1:-}" in
  --setup)
    build_mc && build_mac && build_mt && build_st && build_ex && build_us && build_modes || exit 2
    echo "setup done" ;;
  --replay)
    f=$(realpath "$2") || exit 2
    id=$(sed -n 's/^property=//p' "$f")
    case "$id" in
      C06) build_mt && exec /verif/target/mt/x86_64-unknown-linux-gnu/release/mt replay "$f" ;;
      C18) build_mc && build_mac && exec /verif/target/mc/release/mac replay "$f" ;;
      C19) build_modes && modes --replay "$f" ;;
      C20) build_st && exec /verif/target/st/release/st replay "$f" ;;
      C21|C22|C23|C24) build_ex && exec /verif/target/ex/release/ex replay "$f" ;;
      C25|C26|C27) build_us && exec /verif/target/us/release/us replay "$f" ;;
      *) build_mc && exec /verif/target/mc/release/mc replay "$f" ;;
    esac
    exit 2 ;;
  C[0-9][0-9]) dispatch "$1" ;;
  *) sed -n 2,5p "$0"; exit 2 ;;
esac
