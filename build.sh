#!/bin/bash
# usage: build.sh [ops|hist]   -- builds the simulator (both halves by default) against /repo's working tree
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
for set in ${1:-ops hist}; do
    # the catalogue runs as a development build does, with arithmetic checks; the histories model wrapping integers
    [ "$set" = ops ] && export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true || export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false
    CARGO_TARGET_DIR="$PWD/sim/target/$set" cargo build --offline --locked --quiet --no-default-features --features "$set" --manifest-path sim/Cargo.toml || exit 2
done
