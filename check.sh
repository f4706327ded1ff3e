#!/bin/bash
# check.sh ID [replay=FILE] : decides one property for /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
B=$(bash "$V/build.sh" all) || { echo "the simulator could not be built from /repo's tree" >&2; exit 3; }
B=$(printf '%s\n' "$B" | tail -1)
for a in "$@"; do
  case $a in replay=*) exec "$B/simdrv" replay "$id" "$@";; esac
done
exec "$B/simdrv" check "$id" tier="${VERIF_TIER:-quick}" seed="${VERIF_SEED:-1}" evidence="$V/evidence/$id.json" replays="$V/replays" known="$V/known_findings.txt" "$@"
