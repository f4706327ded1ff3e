#!/bin/bash
# Run with cwd at the repository: builds this folder's Go program against it in
# a scratch directory and runs it there.  RACE=1 in the file "race" turns on
# the race detector.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/bin" "$d/work" || exit 2
cp "$here"/*.go "$d/src/" && cp "$repo/go.sum" "$d/src/go.sum" || exit 2
{
	sed 's|^module .*|module demo|' "$repo/go.mod"
	echo 'require github.com/msnoigrs/gosudachi v0.0.0'
	echo "replace github.com/msnoigrs/gosudachi => $repo"
} > "$d/src/go.mod"
race=
[ -e "$here/race" ] && race=-race
(cd "$d/src" && go build $race -o "$d/demo" .) || exit 3
if [ -e "$here/commands" ]; then
	go build -buildvcs=false -o "$d/bin/" $(cat "$here/commands") || exit 3
fi
cd "$d/work" && BIN="$d/bin" timeout 200 "$d/demo"
