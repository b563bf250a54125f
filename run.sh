#!/bin/bash
# bash run.sh ID [--replay FILE]
# Builds the checker of property ID from /repo's current working tree and runs it.
# Exit: 0 held, 1 VIOLATION, anything else: no verdict.
ID="${1:?usage: run.sh ID [--replay FILE]}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_HOME="$HERE" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GO111MODULE=on
race= commands=
case "$ID" in
	S07) cmd=storage race=-race ;;
	S*) cmd=storage ;;
	D06) cmd=dag race=-race ;;
	D*|P*) cmd=dag ;;
	I08|I11|O10) cmd=index race=-race ;;
	I*) cmd=index ;;
	O*) cmd=index ;;
	C*) cmd=index commands=1 ;;
	*) echo "unknown property $ID" >&2; exit 3 ;;
esac
TMP="$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX")" || exit 3
trap 'rm -rf "$TMP"' EXIT
# The harness module is built from a copy, so that the go command never edits committed files.
cp -r "$HERE/harness" "$TMP/harness" || exit 3
cd "$TMP/harness" || exit 3
# Development only (tools/seed.sh): another copy of the repository.
[ -n "${VERIF_REPO:-}" ] && sed -i "s|=> /repo$|=> $VERIF_REPO|" go.mod
if ! go build $race -o "$TMP/check" "./cmd/$cmd" 2>"$TMP/build.log"; then
	cat "$TMP/build.log" >&2
	echo "$ID: no verdict: the checker does not build" >&2
	exit 3
fi
if [ -n "$commands" ] && ! { mkdir "$TMP/bin" && go build -o "$TMP/bin/" github.com/amarin/gomorphy/cmd/...; } 2>"$TMP/build.log"; then
	cat "$TMP/build.log" >&2
	echo "$ID: no verdict: the commands do not build" >&2
	exit 3
fi
export VERIF_BUILD="$TMP"
cd "$HERE" || exit 3
"$TMP/check" "$@"
