#!/bin/bash
# run_check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then check.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/work"
exec 9>"$here/work/build.lock"
flock 9
if ! "$here/build.sh" >"$here/work/build.log" 2>&1; then
  tail -40 "$here/work/build.log" >&2
  echo "the harness does not build" >&2
  exit 2
fi
flock -u 9
exec 9>&-
exec "$here/target/release/harness" check --prop "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --dir "$here"
