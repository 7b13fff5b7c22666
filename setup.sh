#!/bin/bash
# Builds the analyzer once (fills the build cache) and type-checks it.
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
cd "$V/analyzer" && exec "$GO" build -o /dev/null .
