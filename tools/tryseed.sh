#!/bin/bash
# tryseed.sh <seed id> [property...]: confirm a planted bug (builds, passes the tests, demo tells it apart)
# and say which checks catch it. Works in $REPO (default /repo) and leaves it as it was; with $LAY set,
# $LAY/repo and a copy of the engine in $LAY/verif are used instead.
v=$(cd "$(dirname "$0")/.." && pwd)
s=$v/seeded/$1; shift
. /opt/vp/env.sh 2>/dev/null
r=${LAY:+$LAY/repo}; r=${r:-/repo}
e=${LAY:+$LAY/verif}; e=${e:-$v}
[ -n "$LAY" ] && { rsync -a --exclude target "$v/engine/" "$e/engine/"; cp "$v/known_findings.json" "$v/build.sh" "$v/run_check.sh" "$e/"; }
cd "$r" || exit 1
[ -z "$(git status --porcelain)" ] || { echo "$r is not clean"; exit 1; }
trap 'git -C "$r" checkout -q -- .' EXIT
w=$(mktemp -d)
if [ -z "$SKIPDEMO" ]; then
  bash "$s/demo.sh" >$w/demo-clean.log 2>&1; c=$?; echo "demo on the unchanged tree: $c"; [ $c = 0 ] || tail -15 $w/demo-clean.log
fi
git apply "$s/patch.diff" || exit 1
if [ -z "$SKIPTEST" ]; then
  CARGO_TARGET_DIR=${LAY:-/tmp}/tt $CARGO test -p kuadrant-filter --offline >$w/test.log 2>&1; echo "tests: $? $(grep -h '^test result' $w/test.log | head -3 | cut -c1-60 | tr '\n' ' ')"
  grep -E '^error|FAILED|failed$' -A5 $w/test.log | head -30
fi
if [ -z "$SKIPDEMO" ]; then
  bash "$s/demo.sh" >$w/demo-bug.log 2>&1; c=$?; echo "demo with the bug: $c"; [ $c = 1 ] || tail -15 $w/demo-bug.log
fi
cd "$e"
bash build.sh 2>&1 | grep -E "^error" -A9 | head -30
for p in "$@" $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); do
  ./target/release/harness check --prop $p --dir "$e" 2>&1 | cut -c1-300; echo "$p: exit ${PIPESTATUS[0]}"
done
rm -f "$e"/work/*/*.json
rm -rf "$w"
