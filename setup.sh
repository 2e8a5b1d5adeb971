#!/bin/bash
# Nothing to install: check that the toolchain is there and warm the build cache.
cd "$(dirname "$0")" || exit 2
. lib/env.sh
go version && python3 --version && gcc --version | head -1 || exit 1
cd /repo && go build ./... && go vet -h >/dev/null 2>&1; exit 0
