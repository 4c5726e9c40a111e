#!/bin/bash
# Builds the harness once, which fills the Go build cache; every check rebuilds it.
cd "$(dirname "$0")" || exit 1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin${PATH:+:$PATH}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB=*
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp harness/go.mod harness/go.sum "$work/" && cd harness || exit 1
go build -race -modfile="$work/go.mod" -o "$work/vrun" . || exit 1
go build -modfile="$work/go.mod" -o "$work/vrun" . && "$work/vrun" -list
