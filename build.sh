#!/bin/bash
# Instruments /repo's working tree and builds the simulation drivers from it.
# Prints the directory holding simdrv and simdrv-race. Everything is built
# under /verif/build, keyed by the content of the sources.
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VSIM_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod CGO_ENABLED=1
want=${1:-all}
set -e
cd "$REPO"
key=$( { find . -path ./.git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) -print0 | sort -z | xargs -0 sha256sum; cd "$V/sim"; find . -type f -name '*.go' -print0 | sort -z | xargs -0 sha256sum; cat go.mod "$V/build.sh"; } | sha256sum | cut -c1-16)
B=$V/build/$key
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
if [ ! -f "$B/gen.ok" ]; then
  rm -rf "${B:?}/src" "${B:?}/gen"
  mkdir -p "$B/src" "$B/gen"
  find . -path ./.git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum -o -path './data/root/*' \) -print0 | tar --null -T - -cf - | tar -C "$B/src" -xf -
  (cd "$V/sim" && go build -o "$B/inst" ./cmd/inst)
  "$B/inst" -src "$B/src" -out "$B/gen" -skip data >"$B/inst.log"
  sed 's/^go [0-9.]*$/go 1.21/' "$B/src/go.mod" >"$B/gen/go.mod"
  cat "$B/src/go.sum" >"$B/gen/go.sum"
  cat "$V/sim/go.mod" >"$B/go.mod"
  {
    echo 'require github.com/msnoigrs/gosudachi v0.0.0'
    echo "replace github.com/msnoigrs/gosudachi => $B/gen"
    sed -n 's#^[[:space:]]*\(github.com/emirpasic/gods v[^ ]*\|golang.org/x/text v[^ ]*\).*#require \1#p' "$B/src/go.mod"
  } >>"$B/go.mod"
  cat "$B/src/go.sum" >"$B/go.sum"
  touch "$B/gen.ok"
fi
# builds of trees not looked at for hours
find "$V/build" -mindepth 1 -maxdepth 1 -type d ! -path "$B" -mmin +180 -exec rm -rf {} + 2>/dev/null || true
touch "$B"
cd "$V/sim"
if [ "$want" != race ] && [ ! -f "$B/simdrv" ]; then
  go build -modfile="$B/go.mod" -o "$B/simdrv.tmp" ./cmd/simdrv >&2
  mv "$B/simdrv.tmp" "$B/simdrv"
fi
if [ "$want" != plain ] && [ ! -f "$B/simdrv-race" ]; then
  # (with size-specialised allocation, packages built with -race=false would not
  # tell the detector about new objects)
  GOEXPERIMENT=nosizespecializedmalloc go build -race -modfile="$B/go.mod" -gcflags='vsim/rt=-race=false -l' -gcflags='vsim/vos=-race=false -l' -gcflags="vsim/checks=-race=false -l" -gcflags="vsim/world=-race=false -l" -gcflags='vsim/shim/...=-race=false -l' -o "$B/simdrv-race.tmp" ./cmd/simdrv >&2
  mv "$B/simdrv-race.tmp" "$B/simdrv-race"
fi
echo "$B"
