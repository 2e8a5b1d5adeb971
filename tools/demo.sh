#!/bin/bash
# run with cwd = the repository; runs the demonstration test beside this file inside of the package it names
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
pkg=$(sed -n 's#^// pkg: ##p' "$here/demo_test.go.txt")
printf '{"Replace": {"%s/%s/zz_planted_demo_test.go": "%s/demo_test.go.txt"}}\n' "$PWD" "$pkg" "$here" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestPlantedDemo' "./$pkg"
