#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness and wiki2book from /repo's working tree and decides one property.
# check.sh --replay FILE: runs one saved case again.
HERE=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
BIN=$(mktemp -d /tmp/vh-bin-XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
if ! (cd "$HERE/harness" && go build -o "$BIN/vh" .) >"$BIN/build.log" 2>&1; then
	echo "ERROR: the harness does not build against /repo" >&2
	head -40 "$BIN/build.log" >&2
	exit 2
fi
if ! (cd /repo/src && go build -o "$BIN/wiki2book" .) >"$BIN/build.log" 2>&1; then
	echo "ERROR: wiki2book does not build" >&2
	head -40 "$BIN/build.log" >&2
	exit 2
fi
# the tool with the race detector, where that works (else C35 decides without it)
if [ "$1" = "C35" ] || { [ "$1" = "--replay" ] && grep -q '"property": "C35"' "$2"; }; then
	if (cd /repo/src && CGO_ENABLED=1 go build -race -o "$BIN/wiki2book-race" .) >"$BIN/race.log" 2>&1; then
		"$BIN/wiki2book-race" --help >/dev/null 2>&1 || rm -f "$BIN/wiki2book-race"
	fi
fi
for s in stub-pandoc stub-convert stub-fail; do ln -s "$BIN/vh" "$BIN/$s"; done
export VH_BIN="$BIN"
if [ "$1" = "--replay" ]; then
	"$BIN/vh" replay "$2"
	exit $?
fi
if [ "$1" = "--build" ]; then exit 0; fi
TIER=${2:-${VERIF_TIER:-quick}}
"$BIN/vh" check "$1" "$HERE" "$TIER"
exit $?
