#!/bin/bash
# Build the simulation binary and the driver from /repo's current working tree.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${REPO:-/repo}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0 GO111MODULE=on
unset GODEBUG GOEXPERIMENT GOOS GOARCH
C="${HX_CACHE:-$V/.cache}"
export GOCACHE="$C/gocache"
mkdir -p "$C/overlay" "$C/bin" "$GOCACHE"
python3 "$V/sim/patch/gen.py" "$(go env GOROOT)" "$REPO" "$C/overlay" "$V/sim"
cp "$REPO/go.mod" "$C/overlay/go.mod"; cp "$REPO/go.sum" "$C/overlay/go.sum"
cd "$REPO"
go build -overlay "$C/overlay/overlay.json" -modfile "$C/overlay/go.mod" -tags faketime -o "$C/bin/hxsim" ./zzsim
cd "$V/sim"
go build -o "$C/bin/hxdrv" ./drv
