#!/bin/bash
# plant.sh ID PROPERTY: takes the change made in the worktree /tmp/wt and the
# files in /verif/seeded/ID and confirms the planted bug; resets the worktree.
id=$1 dir=/verif/seeded/$1 wt=/tmp/wt
cp /verif/tools/plant/demo.sh /verif/tools/plant/common.go $dir/ || exit 1
if ! git -C $wt diff --quiet; then git -C $wt diff > $dir/patch.diff; fi
git -C $wt checkout -q -- .
out=$(mktemp)
env=(env HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod)
cd $wt
bash $dir/demo.sh > $out 2>&1 || { echo "$id: demo fails on the unchanged tree:"; tail -5 $out; exit 1; }
git apply $dir/patch.diff || { echo "$id: does not apply"; exit 1; }
"${env[@]}" go build -buildvcs=false ./... || { echo "$id: does not build"; git checkout -q -- .; exit 1; }
"${env[@]}" go test -vet=off -buildvcs=false -count=1 ./... > $out 2>&1 || { echo "$id: tests fail"; tail -5 $out; git checkout -q -- .; exit 1; }
bash $dir/demo.sh > $out 2>&1; rc=$?
git checkout -q -- .
[ $rc = 0 ] && { echo "$id: demo passes with the change"; exit 1; }
echo "$id: ok (demo exits $rc: $(grep -m1 -E 'WRONG|DATA RACE|fault|panic|unexpected' $out))"
