#!/bin/bash
# Builds every checker once, so that the build cache is warm and a broken tool chain shows at once.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GO111MODULE=on
TMP="$(mktemp -d)" || exit 1
trap 'rm -rf "$TMP"' EXIT
cp -r "$HERE/harness" "$TMP/harness" && cd "$TMP/harness" || exit 1
for c in cmd/*/; do
	go build -o "$TMP/check" "./$c" || exit 1
done
