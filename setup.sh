#!/bin/bash
# Builds the verifier once to warm the compiler cache; the checks build it themselves.
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/gocv/env.sh"
B="$(mktemp -d)"; trap 'rm -rf "$B"' EXIT
cd "$V/gocv" && go build -o "$B/gocv" .
