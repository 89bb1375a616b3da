#!/bin/bash
# Runs main.go beside this file against the golearn in the current directory:
# exit 0 if it behaves, nonzero if not. Everything is built in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GO111MODULE=on GOFLAGS= GOSUMDB=off
mkdir "$scratch/m" "$scratch/t" || exit 2
export TMPDIR=$scratch/t
{
	echo "module demo"; echo
	echo "require github.com/sjwhitworth/golearn v0.0.0"
	echo "replace github.com/sjwhitworth/golearn => $repo"
	sed -e '/^module /d' "$repo/go.mod"
} > "$scratch/m/go.mod"
cp "$here/gosum.txt" "$scratch/m/go.sum"
cp "$here/main.go" "$scratch/m/main.go"
cd "$scratch/m" || exit 2
go build -mod=mod ${DEMO_FLAGS} -o demo . || exit 2
timeout 200 ./demo
