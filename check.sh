#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the verifier, verify /repo's current tree against contracts/PROPERTY.gov
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} LANG=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB='*' GOFLAGS=
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/gov" && GOFLAGS=-mod=mod go build -o "$bin/gov" .) || exit 2
tier=${2:-${VERIF_TIER:-quick}}; limit=680; [ "$tier" = thorough ] && limit=14000
timeout -k 5 $limit "$bin/gov" -prop "$1" -tier "$tier" -repo /repo -verif "$here"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || { "$bin/gov" -prop "$1" -tier "$tier" -repo /repo -verif "$here" -crashed "the verifier ended with status $rc"; rc=$?; }
exit $rc
