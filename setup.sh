#!/bin/bash
# Builds the analyser from the committed sources (offline).
set -e
cd "$(dirname "$0")"
root=$PWD
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off CGO_ENABLED=0
mkdir -p "$root/.bin"
cd "$root/analyzer"
go build -o "$root/.bin/jsvalcheck.tmp.$$" ./cmd/jsvalcheck
mv -f "$root/.bin/jsvalcheck.tmp.$$" "$root/.bin/jsvalcheck"
