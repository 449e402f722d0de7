#!/bin/bash
# plant.sh ID: confirms the change made in the scratch copy /tmp/rp as a planted bug and keeps it in /verif/seeded/ID.
# Needs /verif/seeded/ID/{demo.sh,meta.json,...}. plant.sh -new makes the scratch copy afresh.
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
if [ "$1" = -new ]; then rm -rf /tmp/rp; cp -a /repo /tmp/rp; exit; fi
d=/verif/seeded/$1; cd /tmp/rp || exit 2
[ -n "$(git diff)" ] || { echo "no change"; exit 2; }
git diff > "$d/patch.diff"
go build ./... || exit 1
pkgs=$(go list -e ./... | grep -vE '/(core/api|core/testutils|pkg/arbiter)$')
go test -p 1 -vet=off -count=1 -timeout 3m $pkgs 2>&1 | grep -E '^(---|FAIL|panic)' && { echo "existing tests fail"; exit 1; }
timeout 300 bash "$d/demo.sh" > /tmp/demo.patched 2>&1 && { echo "demo passes with the patch"; exit 1; }
git checkout -q -- . 
timeout 300 bash "$d/demo.sh" > /tmp/demo.clean 2>&1 || { cat /tmp/demo.clean; echo "demo fails without the patch"; git apply "$d/patch.diff"; exit 1; }
git -C /repo apply --check "$d/patch.diff" || exit 1
tail -4 /tmp/demo.patched
git apply "$d/patch.diff"; echo "planted $1"
