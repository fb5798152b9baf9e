#!/bin/bash
# Builds the checkers from /repo's current working tree (plain and -race).
cd "$(dirname "$0")" || exit 1
. ./env.sh
python3 mc/rt/patch.py /opt/veriftools/go1.27.3 "$B/overlay" "$R" mc/h || exit 1
cd "$R" || exit 1
if ! go build -overlay "$B/overlay/overlay.json" -o "$B/mc" ./verifmc; then
	# without the preemptions between statements, should they be the reason
	cd "$OLDPWD" && MC_NOINST=1 python3 mc/rt/patch.py /opt/veriftools/go1.27.3 "$B/overlay" "$R" mc/h || exit 1
	cd "$R" || exit 1
	go build -overlay "$B/overlay/overlay.json" -o "$B/mc" ./verifmc || exit 1
fi
[ "$1" = norace ] || go build -race -overlay "$B/overlay/overlay.json" -o "$B/mcrace" ./verifmc
