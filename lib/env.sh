# Go environment of the checks (same toolchain and caches as /opt/vp/env.sh, offline)
GOROOT_120=/root/go/pkg/mod/golang.org/toolchain@v0.0.1-go1.20.14.linux-amd64
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$GOROOT_120/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
unset GOROOT SOURCE_DATE_EPOCH COLUMNS GOOS GOARCH
