#!/bin/bash
# build.sh MODE: build the harness, and with it /repo's packages, from the
# current working trees. MODE: "" (plain), race, asan.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build=$here/.build
mkdir -p "$build" || exit 3
cd "$here/harness" || exit 3
# module files: /repo's requirements, with the sums go would refuse left out
gen=$(mktemp -d) || exit 3
trap 'rm -rf "$gen"' EXIT
{
	echo "module verif"; echo
	echo "require github.com/sjwhitworth/golearn v0.0.0"
	echo "replace github.com/sjwhitworth/golearn => /repo"
	sed -e '/^module /d' /repo/go.mod
} > "$gen/go.mod" || exit 3
cp "$here/harness/go.sum" "$gen/go.sum" || exit 3
flags=() out=$build/harness
case $1 in
race) flags=(-race); out=$build/harness-race ;;
asan) flags=(-asan); out=$build/harness-asan ;;
esac
log=$gen/log
if ! go build -modfile="$gen/go.mod" -mod=mod "${flags[@]}" -o "$out.$$" . > "$log" 2>&1; then
	cat "$log" >&2
	rm -f "$out.$$"
	exit 3
fi
mv -f "$out.$$" "$out"
