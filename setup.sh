#!/bin/bash
# builds the verification condition generator
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PATH="$PATH:/usr/local/go/bin"
mkdir -p "$here/bin"
cd "$here/govc"
go build -o "$here/bin/govc" .
