#!/bin/bash
# Runs main.go against the driver in the current directory. Exit 0: the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd -P)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/github.com/johnnadratowski" "$tmp/src/demo" "$tmp/cache"
ln -s "$repo" "$tmp/src/github.com/johnnadratowski/golang-neo4j-bolt-driver"
cp "$here"/*.go "$tmp/src/demo/"
export GOPATH="$tmp" GO111MODULE=off GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
[ -n "$HOME" ] || export GOCACHE="$tmp/cache"
cd "$tmp/src/demo" || exit 3
go build -o "$tmp/demo" . || exit 3
timeout 120 "$tmp/demo"
