#!/bin/bash
# check.sh <property> [tier]: decide one property on /repo's current working tree (static analysis; /repo is only read).
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -n "$2" ] && export VERIF_TIER="$2"
if [ ! -x bin/wrcheck ] || [ -n "$(find wrcheck -name '*.go' -newer bin/wrcheck -print -quit)" ]; then
	(cd wrcheck && go build -o ../bin/wrcheck .) || exit 2
fi
exec bin/wrcheck "$1" -repo "${WR_REPO:-/repo}" -verif "$PWD"
