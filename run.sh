#!/bin/bash
# run.sh setup | check <property> [quick|thorough] | replay <file>
cd /verif || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off
BIN=/verif/bin/vsym
build() { (cd engine && mkdir -p /verif/bin && GOFLAGS=-mod=vendor go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN"); }
if [ "$1" = setup ]; then build; exit $?; fi
if [ ! -x "$BIN" ] || [ -n "$(find engine -name '*.go' -newer "$BIN" -print -quit)" ]; then build || exit 2; fi
exec "$BIN" "$@"
