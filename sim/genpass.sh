#!/bin/bash
# Regenerates the pass-through halves of the shims.
cd "$(dirname "$0")" || exit 1
for x in os:os runtime:runtime io/ioutil:ioutil time:time sync:sync flag:flag log:log math/rand:rand path/filepath:filepath golang.org/x/sys/unix:unix syscall:syscall fmt:fmt; do
  go run ./cmd/passgen shim/${x##*:} ${x%%:*} ${x##*:} || exit 1
done
