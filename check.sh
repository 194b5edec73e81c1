#!/bin/bash
# check.sh ID [--replay FILE]: builds the checker of property ID against
# /repo's working tree and runs it.  Exit 0: held; 1: VIOLATION line printed;
# anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=/root LANG=C.UTF-8 TERM=xterm
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOMAXPROCS GODEBUG GOTRACEBACK GORACE NO_COLOR
id=$1
case $id in
C01|C02|C03|C04|C05|C06|C07|C09|C10|C25) pkg=prom ;;
C08|C27|C28) pkg=conc ;;
C26) pkg=live ;;
C11|C12|C13|C14|C15|C29) pkg=complete ;;
C16|C17|C18|C21|C22|C23|C30) pkg=term ;;
C19|C20) pkg=plot ;;
C24) pkg=sets ;;
C31) pkg=cli ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
# whose interleavings are explored as well
also=
case $id in C21|C22|C23) also=conc ;; C29) also=live ;; esac
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
build() { # PACKAGE DIRECTORY
	mkdir -p "$2"
	if [ -x "harness/$1/build.sh" ]; then
		bash "harness/$1/build.sh" "$2"
	else
		(cd harness && go build -o "$2/bin" "./$1")
	fi || { echo "ERROR: $1 does not build" >&2; exit 2; }
}
build "$pkg" "$tmp/1"
if [ -n "$also" ]; then
	build "$also" "$tmp/2"
	export VH_ALSO="$tmp/2/bin"
fi
"$tmp/1/bin" "$@"
