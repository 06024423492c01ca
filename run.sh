#!/bin/bash
# run.sh setup | check PROP | replay FILE
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GOTELEMETRY=off
export GOCACHE=/verif/.gocache
cd /verif/mk || exit 3
mkdir -p /verif/.build || exit 3
bin=$(mktemp -d /verif/.build/mk.XXXXXX) || exit 3
go build -o "$bin/mk" . || exit 3
exec "$bin/mk" "$@" # removes its own directory
