#!/bin/bash
# Uses the client library of the tree in the working directory; exits 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/client/src"
sed "s#@REPO@#$repo#" "$here/kit/client.toml" > "$T/client/Cargo.toml"
cp "$here/kit/mini.rs" "$here/main.rs" "$T/client/src/"
export CARGO_TARGET_DIR="$T/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$T/client" && timeout 280 cargo +stable run -q --offline
