#!/bin/bash
# Builds the monitors once, which fills Go's build cache for the checks.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
trap 'rm -rf -- "$bin"' EXIT
cd "$here/harness"
go build -tags verif -o "$bin/vc" . || go build -o "$bin/vc" .
go build -o "$bin/hx" github.com/strangelove-ventures/horcrux/cmd/horcrux
go build -tags verif -race "-gcflags=all=-d=checkptr=0" -o "$bin/vcr" . || true
