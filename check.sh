#!/bin/bash
# check.sh PROPERTY: verify the contracts of one property against /repo's current source
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VERIF_DIR="$here"
export PATH="$PATH:/usr/local/go/bin"
bash "$here/setup.sh" >&2 || exit 2
exec "$here/bin/govc" check "$1"
