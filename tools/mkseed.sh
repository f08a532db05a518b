#!/bin/bash
# mkseed.sh <seed id> : lay the demo driver beside seeded/<id>/scenario.json
set -e
v=$(cd "$(dirname "$0")/.." && pwd)
d=$v/seeded/$1
mkdir -p "$d/demo/demo/src" "$d/demo/shim"
cp "$v/tools/demo/Cargo.toml" "$d/demo/demo/"
cp "$v/tools/demo/src/main.rs" "$d/demo/demo/src/"
cp "$v/engine/harness/src/world.rs" "$v/engine/harness/src/pb.rs" "$d/demo/demo/src/"
cp "$v/engine/harness/Cargo.lock" "$d/demo/demo/"
rm -rf "$d/demo/pw-stub"; cp -r "$v/engine/pw-stub" "$d/demo/pw-stub"; rm -rf "$d/demo/pw-stub/target"
cp "$v/engine/shim/build.rs" "$d/demo/shim/"
sed 's|../../../repo/|@REPO@/|g' "$v/engine/shim/Cargo.toml" > "$d/demo/shim/Cargo.toml"
cp "$v/tools/demo/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
