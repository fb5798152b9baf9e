#!/bin/bash
# ./check.sh PROPERTY     runs the check of one property (VERIF_TIER=quick|thorough)
# ./check.sh replay FILE  replays a counterexample
cd "$(dirname "$0")" || exit 3
. ./env.sh
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
if [ "$1" = replay ]; then
	./build.sh || exit 3
	if grep -q '"race": true' "$2"; then exec "$B/mcrace" replay "$2"; fi
	exec "$B/mc" replay "$2"
fi
prop=$1
[ -n "$prop" ] || { echo "usage: check.sh PROPERTY | replay FILE"; exit 3; }
evid=${MC_EVID:-evidence} repl=${MC_REPL:-$PWD/replays}
mkdir -p "$evid" "$repl"
log=$B/build.$prop.log
if [ "$prop" = C05 ]; then ./build.sh race; else ./build.sh norace; fi >"$log" 2>&1
if [ $? -ne 0 ]; then
	# not a statement about the property: the tree or the harness doesn't build
	cat "$log"
	echo "CANNOT-CHECK: the checker could not be built from /repo, nothing was explored"
	python3 - "$prop" "$tier" "$seed" "$evid" <<'PY'
import json, sys
p, t, s, d = sys.argv[1:5]
json.dump({"property": p, "tier": t, "seed": int(s), "level": "model_checking",
  "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False, "samples": ["none: the checker could not be built"]},
  "wall_s": 0, "violations": 0}, open("%s/%s.json" % (d, p), "w"), indent=1)
PY
	exit 3
fi
budget=300; [ "$tier" = thorough ] && budget=${MC_BUDGET:-3000}
[ "$tier" = quick ] && budget=${MC_BUDGET:-300}
bin=$B/mc; extra=
[ "$prop" = C05 ] && extra="-racebin $B/mcrace"
"$bin" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$evid/$prop.json" -known known-findings.jsonl \
	-replays "$repl" -budget $budget $extra $MC_FLAGS
rc=$?
[ $rc = 1 ] && exit 1
[ $rc = 0 ] && exit 0
echo "CANNOT-CHECK: the explorer ended with $rc"
exit 3
