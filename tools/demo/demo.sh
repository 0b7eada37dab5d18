#!/bin/bash
# Builds a small program against the crates of the current directory's tree, in a scratch folder, and runs it.
# exit 0: the guarantee holds; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
scratch=$(mktemp -d) || exit 99
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src" "$scratch/approx_cmp/src"
cp "$here/main.rs" "$scratch/src/main.rs"
cp "$here/approx_cmp.rs" "$scratch/approx_cmp/src/lib.rs"
cp "$here/Cargo.lock.txt" "$scratch/Cargo.lock"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.txt" > "$scratch/Cargo.toml"
cp "$here/approx_cmp.toml.txt" "$scratch/approx_cmp/Cargo.toml"
cd "$scratch" || exit 99
cargo build --offline --quiet || exit 98
timeout 120 ./target/debug/demo
