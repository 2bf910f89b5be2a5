#!/bin/bash
# check.sh PROPERTY TIER: analyses /repo's current source. Exit 0 (holds) or 1 (with a VIOLATION line).
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
out=evidence/$prop.log
fail() {
	echo "$1"
	echo "VIOLATION property=$prop replay=evidence/$prop.log"
	exit 1
}
if [ ! -x bin/sa ]; then
	(cd sa && go build -o ../bin/sa .) >"$out" 2>&1 || { cat "$out"; fail "undecided: the analyser can't be built"; }
fi
limit=800
[ "$tier" = thorough ] && limit=3000
timeout "$limit" bin/sa -prop "$prop" -tier "$tier" -repo /repo -verif "$PWD" >"$out" 2>&1
rc=$?
cat "$out"
case $rc in
0) exit 0 ;;
1) grep -q "^VIOLATION property=$prop " "$out" && exit 1 ;;
124) fail "undecided: the analysis needs more than $limit s" ;;
esac
fail "undecided: the analyser ended with status $rc"
