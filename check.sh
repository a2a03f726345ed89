#!/bin/bash
# usage: check.sh check <property> <tier> | replay <file> | setup
# Builds the driver from the committed sources and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/vsim" ./cmd/vsim) || exit 2
"$tmp/vsim" "$@"
