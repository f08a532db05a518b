#!/bin/bash
# Builds the harness from /repo's current working tree. Usage: build.sh [target-dir]
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/engine/harness"
exec cargo --config /opt/vp/git-deps/config.toml build --offline --release --target-dir "${1:-$here/target}"
