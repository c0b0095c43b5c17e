#!/bin/bash
# run.sh <property> | run.sh setup
# Builds the condition generator from /verif/gover if needed, then checks one property of /repo.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${HOME:-/root}"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
mkdir -p "$D/bin" "$D/work" "$D/evidence"
if [ ! -x "$D/bin/gover" ] || [ -n "$(find "$D/gover" -newer "$D/bin/gover" -name '*.go' -print -quit)" ]; then
	T="$D/bin/gover.$$"
	(cd "$D/gover" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$T" .) || { echo "cannot build gover"; exit 3; }
	mv "$T" "$D/bin/gover"
fi
[ "${1:-}" = setup ] && exit 0
export GOVER_VERIF="$D" GOVER_CONTRACTS="$D/contracts" GOVER_REPO="${GOVER_REPO:-/repo}"
exec "$D/bin/gover" check "$@"
