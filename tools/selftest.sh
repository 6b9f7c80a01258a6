#!/bin/bash
# Verifies small functions with known verdicts: every Ok… has to be proved,
# no Bad… may be. Exit 0 when the generator gives all of these verdicts.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
work=$(mktemp -d)
[ -n "${KEEP:-}" ] && echo $work || trap 'rm -rf "$work"' EXIT
bin=${GOVC:-$work/govc}
[ -n "${GOVC:-}" ] || (cd "$here/govc" && go build -o "$bin" .) || exit 2
cp -a /repo "$work/repo"
cp -a "$here/contracts" "$work/contracts"
mkdir -p "$work/repo/pkg/selftest" "$work/contracts/pkg/selftest"
cp "$here"/selftest/code/*.go "$work/repo/pkg/selftest/"
cp "$here"/selftest/spec/*.go "$work/contracts/pkg/selftest/"
GOVC_REPO=$work/repo GOVC_CONTRACTS=$work/contracts "$bin" func 'selftest.*' > "$work/out" 2>&1
grep -c 'selftest\.' "$work/out"
if grep -E 'selftest\.Bad\S+ +proved|selftest\.Ok\S+ +(failed|error)|dropped' "$work/out"; then
	exit 1
fi
grep -q 'selftest\.Ok' "$work/out" && grep -q 'selftest\.Bad' "$work/out" || { cat "$work/out"; exit 1; }
echo "all verdicts as expected"
