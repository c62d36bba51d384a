#!/bin/bash
# Runs the check of each seeded change's property against it: trybugs.sh [-t TIER] [ID...]
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
cd /verif || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
	s=$(date +%s)
	out=$(timeout 900 ./run.sh ${CHECK:-$p} --tier $tier 2>&1); rc=$?
	git -C /repo checkout -q -- .
	echo "$b: $p rc=$rc $(( $(date +%s) - s )) s $(grep -c '^VIOLATION' <<<"$out") | $(grep -B1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-160)"
done
