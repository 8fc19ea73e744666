#!/bin/bash
# Builds the example programs of the crate in the current directory and plays with them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH"
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cargo build --offline --quiet --examples --target-dir "$d/target" || exit 3
timeout 200 python3 "$here/demo.py" "$d/target/debug/examples"
