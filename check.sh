#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh --replay FILE
# Builds the verifier and checks one property of /repo's current working tree.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/gocv/env.sh"
BIN="$(mktemp -d)"
trap 'rm -rf "$BIN"' EXIT
(cd "$V/gocv" && go build -o "$BIN/gocv" .) || { echo "cannot build the verifier" >&2; exit 2; }
if [ "${1:-}" = "--replay" ]; then
  "$BIN/gocv" -verif "$V" -repo "${REPO:-/repo}" -replay "$2"; exit $?
fi
"$BIN/gocv" -verif "$V" -repo "${REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
