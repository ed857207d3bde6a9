#!/bin/sh
# Builds Ecdar/Reveaal from the sources in the working directory, with stand-ins for the libraries
# that are not installed (engine.tgz), asks it what cases.py says and lets cases.py judge the answers.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
tar xzf "$here/engine.tgz" -C "$d" || exit 3
ln -s "$repo/src" "$d/harness/full/src"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS=-Awarnings
(cd "$d/harness/drive" && cargo build --offline --quiet) || exit 3
python3 "$here/cases.py" ask > "$d/in" || exit 3
timeout 200 "$d/target/debug/drive" < "$d/in" > "$d/out" || exit 3
python3 "$here/cases.py" judge < "$d/out"
