#!/bin/bash
# usage: run.sh setup | run.sh C01 [--race] [--scen NAME] | run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off GOSUMDB=off
D=$(mktemp -d /tmp/verif3mf-mc.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
go build -o "$D/mc" ./cmd/mc || exit 2
case "$1" in
setup) "$D/mc" setup ;;
replay) "$D/mc" replay "$2" ;;
*) "$D/mc" check "$@" ;;
esac
