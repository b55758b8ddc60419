#!/bin/bash
# Runs the demonstration test in the package it belongs to (cwd: /repo).
D="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$PWD"
cp client/go.mod "$T/m.mod"; cp client/go.sum "$T/m.sum"
PKG="$(sed -n 's|^// demo-package: ||p' "$D/demo_test.go")"
echo "{\"Replace\":{\"$R/client/$PKG/zz_demo_test.go\":\"$D/demo_test.go\"}}" > "$T/o.json"
cd client && timeout 250 go test -mod=mod -modfile="$T/m.mod" -overlay "$T/o.json" -vet=off -count=1 -run '^TestZZDemo$' "./$PKG"
