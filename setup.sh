#!/bin/bash
# Builds every checker once, which fills the build cache the checks use.
cd "$(dirname "$0")" || exit 1
export HOME=/root LANG=C.UTF-8 TERM=xterm
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
for d in harness/*/; do
	pkg=$(basename "$d")
	if [ -x "$d/build.sh" ]; then bash "$d/build.sh" "$tmp" || exit 1
	elif grep -qs '^package main' "$d"/*.go; then (cd harness && go build -o "$tmp/bin" "./$pkg") || exit 1
	fi
done
echo setup done
