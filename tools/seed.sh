#!/bin/bash
# seed.sh ID: checks one planted bug by hand: the patch applies to /repo's
# HEAD, builds, the stable tests pass, the demo distinguishes, and the check of
# its property reports it.  Works in a scratch copy except for the check run,
# which patches /repo and undoes it.   seed.sh -n ID skips the check run.
nocheck=; [ "$1" = -n ] && { nocheck=1; shift; }
id=$1; d=/verif/seeded/$id
prop=$(jq -r .property "$d/meta.json")
w=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
bash "$w/demo/demo.sh" >"$w/out0" 2>&1 && echo "demo clean: ok" || { echo "demo FAILS on the unchanged tree"; tail -20 "$w/out0"; exit 1; }
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 1; }
go build ./... || exit 1
bash "$w/demo/demo.sh" >"$w/out1" 2>&1 && { echo "demo PASSES with the patch"; exit 1; } || echo "demo patched: fails, ok ($(grep -m1 -E 'panic|FAIL|DEMO|---' "$w/out1"))"
go test -count=1 ./... 2>&1 | grep -vE '^ok|no test files' | head -20
[ -n "$nocheck" ] && exit 0
git -C /repo apply "$d/patch.diff" || exit 1
timeout 900 bash /verif/check.sh "$prop" 2>&1 | grep -E 'VIOLATION|ERROR' | head -3
echo "check exit: ${PIPESTATUS[0]}"
git -C /repo checkout -- .
