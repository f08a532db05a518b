#!/bin/bash
# Plays scenario.json against the module built from the current directory's sources.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo/." "$t/"
sed -i "s|@REPO@|$repo|g" "$t/shim/Cargo.toml"
cd "$t/demo"
cargo --config /opt/vp/git-deps/config.toml build --offline --target-dir "$t/target" >"$t/build.log" 2>&1 || { tail -30 "$t/build.log"; exit 3; }
set +e
timeout 60 "$t/target/debug/demo" "$here/scenario.json"
