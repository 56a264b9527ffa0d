#!/bin/bash
# usage: check.sh PROPERTY_ID   (VERIF_TIER, VERIF_SEED from the environment)
# Builds the monitors against /repo's current working tree and runs the one for the property.
# exit 0: held on everything observed; 1: violated (VIOLATION line); 2: no verdict.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export VERIF_DIR="$here" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX")
trap 'rm -rf -- "$bin"' EXIT
# C12 is the race detector's; checkptr is off because boltdb's page casts trip it
race=()
case "$id" in C12) race=(-race "-gcflags=all=-d=checkptr=0") ;; esac
cd "$here/harness" || exit 2
# with the hooks; if those do not fit the current tree, without (what needs them is left out then)
if ! go build -tags verif "${race[@]}" -o "$bin/vc" . 2>"$bin/hooks" && ! go build "${race[@]}" -o "$bin/vc" . ; then
  echo "$id: the monitors do not build against the current tree"
  exit 2
fi
if ! go build "${race[@]}" -o "$bin/hx" github.com/strangelove-ventures/horcrux/cmd/horcrux ; then
  echo "$id: horcrux does not build"
  exit 2
fi
export VERIF_HX="$bin/hx"
"$bin/vc" run "$id"
