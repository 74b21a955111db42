#!/bin/bash
# check.sh <ID> [quick|thorough] [scenario]   runs the check of one property against /repo's working tree
# check.sh replay <file>                      replays a recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./env.sh || exit 2
tmp=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=()
if [ "$1" = C31 ] || { [ "$1" = replay ] && grep -q '"property": *"C31"' "$2" 2>/dev/null; }; then
	# C31 schedules goroutines: a copy of the library with scheduling points is overlaid
	mkdir -p "$tmp/ins"
	( cd harness && go run ./cmd/instrument /repo "$tmp/ins" ) || { echo "check.sh: instrumentation failed" >&2; exit 2; }
	flags=(-tags verifsched -overlay "$tmp/ins/overlay.json")
fi
( cd harness && go build "${flags[@]}" -o "$tmp/check" ./cmd/check ) || { echo "check.sh: build failed" >&2; exit 2; }
"$tmp/check" "$@"
rc=$?
exit $rc
