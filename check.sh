#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the analyzer from /verif/analyzer and decides one property on the
# current source of /repo. Exit 0: held; exit 1: a VIOLATION line was printed.
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"
T="${2:-${VERIF_TIER:-quick}}"
export HOME=/root
export GOPROXY=off GOSUMDB=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
BIN="$(mktemp -d "${TMPDIR:-/tmp}/stfscheck.XXXXXX")"
trap '/bin/rm -rf "$BIN"' EXIT
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
if ! (cd "$V/analyzer" && GOTOOLCHAIN=local GOFLAGS=-mod=vendor "$GO" build -o "$BIN/stfscheck" .) >"$BIN/log" 2>&1; then
	mkdir -p "$V/evidence"
	cp "$BIN/log" "$V/evidence/replay-$P.txt"
	cat "$BIN/log"
	echo "the analyzer itself could not be built"
	exit 2
fi
# the repository is loaded with its own toolchain, exactly as /opt/vp/build.sh does
export PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod
"$BIN/stfscheck" -repo /repo -verif "$V" -property "$P" -tier "$T"
exit $?
