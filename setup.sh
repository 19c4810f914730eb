#!/bin/bash
# builds the symbolic engine from /verif/engine, offline
set -e
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd "$V/engine"
mkdir -p "$V/bin"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off go build -o "$V/bin/gosym.tmp.$$" .
mv "$V/bin/gosym.tmp.$$" "$V/bin/gosym"
