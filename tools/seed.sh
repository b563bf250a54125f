#!/bin/bash
# bash tools/seed.sh verify ID...   confirm planted bugs: applies, builds, passes the stable tests, demo tells
# bash tools/seed.sh catch ID...    run the check of each bug's property against it, in a copy of /repo and /verif
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
mode=$1; shift
[ $# -eq 0 ] && set -- $(ls "$V/seeded")
for id in "$@"; do
	S="$V/seeded/$id"
	W=$(mktemp -d /tmp/seed-XXXXXX)
	cp -a /repo "$W/repo"
	git -C "$W/repo" checkout -q -- .
	case $mode in
	verify)
		mkdir "$W/demo"; cp -r "$S/." "$W/demo/"; rm -f "$W/demo/"*.diff "$W/demo/meta.json"
		(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1); clean=$?
		git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$W"; continue; }
		sed "s|/repo|$W/repo|g" /opt/vp/env.sh >"$W/env.sh"
		(. "$W/env.sh"; cd "$W/repo" && go build $PKGS && gofmt -e internal/index pkg/opencorpora cmd >/dev/null && go test -vet=off -count=1 $PKGS) >"$W/test.log" 2>&1; tests=$?
		(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/bug.log" 2>&1); bug=$?
		if [ $clean = 0 ] && [ $tests = 0 ] && [ $bug != 0 ]; then echo "$id: ok"; else
			echo "$id: BAD clean=$clean tests=$tests bug=$bug"; tail -5 "$W/clean.log"; tail -5 "$W/test.log"; tail -5 "$W/bug.log"; fi
		;;
	catch)
		prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$S/meta.json")
		git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$W"; continue; }
		mkdir "$W/verif"; cp -r "$V/harness" "$V/run.sh" "$V/known_findings.txt" "$W/verif/" 2>/dev/null
		start=$(date +%s)
		VERIF_REPO="$W/repo" timeout 900 bash "$W/verif/run.sh" "$prop" >"$W/out" 2>&1; rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$W/out"; then echo "$id: caught by $prop ($(( $(date +%s) - start )) s): $(grep -m1 "^$prop/" "$W/out" | cut -c1-200)"
		else echo "$id: MISSED by $prop rc=$rc: $(tail -3 "$W/out" | cut -c1-300)"; fi
		;;
	esac
	rm -rf "$W"
done
