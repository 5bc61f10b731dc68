#!/bin/bash
# Runs demo.py against the tree in the working directory: it drives the real
# command or macro, built against small stand-ins (kit/stubs) for crates that
# are not available offline.  Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export REPO=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$here/kit" "$T/kit"
for f in "$T"/kit/harness/*/Cargo.toml; do sed -i "s#/repo/#$REPO/#" "$f"; done
export T CARGO_TARGET_DIR="$T/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
timeout 280 python3 "$here/demo.py"
