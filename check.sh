#!/bin/bash
# Builds the checker from /verif/checker and decides the given properties on
# /repo's current source. Nothing of the repository is run.
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
prop="${1:-}"
export VERIF_DIR="$dir"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d /tmp/verif-check.XXXXXX)" || exit 1
trap 'rm -rf "$tmp"' EXIT
fail() {
	mkdir -p "$dir/evidence"
	out="$dir/evidence/$prop.violation.txt"
	{ echo "property $prop: not decided"; echo "$1"; cat "$tmp/log" 2>/dev/null; } > "$out"
	cat "$out"
	echo "VIOLATION property=$prop replay=$out"
	exit 1
}
if ! (cd "$dir/checker" && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$tmp/checker" .) > "$tmp/log" 2>&1; then
	fail "the checker could not be built"
fi
"$tmp/checker" "$@"
code=$?
if [ "$code" -ne 0 ] && [ "$code" -ne 1 ]; then
	fail "the checker ended with the status $code"
fi
exit "$code"
