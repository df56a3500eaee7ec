#!/bin/bash
# Checks that the tools are there, and warms the build cache.
set -e
cd "$(dirname "$0")/.."
command -v java go python3 >/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
(cd instr && go build -o "$w/vinstr" .)
cp -r harness "$w/h"
"$w/vinstr" -repo /repo -ov "$PWD/instr/ov" -out "$w/i" -overlay "$w/ov.json"
(cd "$w/h" && go test -c -overlay "$w/ov.json" -vet=off -o "$w/vh.test" .)
echo ok
