#!/bin/bash
# usage: check.sh <property> <quick|thorough> [replay FILE]
# Instruments /repo's current working tree into a scratch directory, builds the explorer with it and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=$2; mode=${3:-run}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="${GOFLAGS:-}" GOTOOLCHAIN=local
repo=${MC_REPO:-/repo}
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
build() {
	(cd "$here/instr" && go build -o "$tmp/instr" .) &&
	(cd "$repo" && "$tmp/instr" -repo "$repo" -out "$tmp" -harness "$here/zzv" &&
		go build -overlay "$tmp/overlay.json" -o "$tmp/mc" ./zzv/mc)
}
if ! build; then
	echo "check.sh: the instrumented program does not build" >&2
	exit 2
fi
export MC_KNOWN="$here/KNOWN_FINDINGS.txt" MC_EVIDENCE="${MC_EVIDENCE:-$here/evidence}"
cd "$tmp" || exit 2
if [ "$mode" = replay ]; then
	"$tmp/mc" replay "$id" "$tier" "$4"
else
	"$tmp/mc" run "$id" "$tier"
fi
