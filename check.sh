#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the harness against /repo's working tree and runs one property's checks.
# exit 0: held on everything explored; 1: violated; anything else: an error of the check.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin${PATH:+:$PATH}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
work=$(mktemp -d "${TMPDIR:-/tmp}/vcheck.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
# what is said about concurrency is watched by the race detector
race=
case $prop in C34|C37) race=-race ;; esac
# the module files are copied so that a build never rewrites committed ones
cp harness/go.mod "$work/go.mod" && cp harness/go.sum "$work/go.sum" || exit 2
if ! (cd harness && go build $race -modfile="$work/go.mod" -o "$work/vrun" .) >&2; then
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
# the thorough tier adds a search guided by the coverage of the code under test
if [ "$tier" = thorough ]; then
  case $prop in
  C34|C37|C38) ;; # race detector, log files: not for several processes at once
  *) (cd harness && go test -c -fuzz=FuzzGuided -modfile="$work/go.mod" -o "$work/guided" .) >&2 && export VRUN_GUIDED_BIN="$work/guided" ;;
  esac
fi
"$work/vrun" -property "$prop" -tier "$tier" -seed "$seed" -root "$ROOT"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
