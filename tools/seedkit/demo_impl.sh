#!/bin/bash
# Generates a client from doc.json with the generator of the tree in the working
# directory, then uses that client; exits 0 if it behaves.  The generator is
# built against small stand-ins (kit/stubs) for crates that are not available
# offline.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$here/kit" "$T/kit"
sed -i "s#/repo/#$repo/#" "$T/kit/harness/impl-shim/Cargo.toml"
mkdir -p "$T/client/src"
sed "s#@REPO@#$repo#; s#@KIT@#$T/kit#" "$here/kit/client.toml" > "$T/client/Cargo.toml"
cp "$here/kit/mini.rs" "$here/main.rs" "$T/client/src/"
export CARGO_TARGET_DIR="$T/target" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
(cd "$T/kit/harness/gen" && timeout 140 cargo +stable build -q --offline) || exit 3
python3 - "$here" "$T" <<'P' || exit 4
import json, sys, subprocess
here, T = sys.argv[1:]
runs = json.load(open(here + "/runs.json"))
for r in runs:
    if "out" in r:
        r["out"] = T + "/client/src/" + r["out"]
json.dump([{"doc": open(here + "/doc.json").read(), "runs": runs}], open(T + "/jobs.json", "w"))
subprocess.run([T + "/target/debug/gen", T + "/jobs.json", T + "/out.ndjson"], check=True)
for l in open(T + "/out.ndjson"):
    r = json.loads(l)
    want = runs[r["run"]].get("expect", "ok")
    print("generation:", r["r"], r.get("msg", ""))
    if r["r"] != want:
        print("FAILED: expected", want)
        sys.exit(1)
P
cd "$T/client" && timeout 200 cargo +stable run -q --offline
