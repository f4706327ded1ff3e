#!/bin/bash
# catch.sh ID...: applies each planted bug to /tmp/wt and runs its property's
# quick check (or those in CHECKS) on it.
for id in "$@"; do
	dir=/verif/seeded/$id
	git -C /tmp/wt checkout -q -- . && git -C /tmp/wt apply $dir/patch.diff || exit 1
	prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
	for c in ${CHECKS:-$prop}; do
		s=$(date +%s)
		VSIM_REPO=/tmp/wt bash /verif/check.sh $c quick evidence=/tmp/ev.json replays=/tmp/rp > /tmp/out.$id.$c 2>&1
		rc=$?
		echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/out.$id.$c)"
	done
	git -C /tmp/wt checkout -q -- .
done
