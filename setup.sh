#!/bin/bash
# Builds everything once, so that the build cache is warm and a broken tree is noticed.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
tmp=$(mktemp -d /tmp/mcsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
(cd instr && go build -o "$tmp/instr" .) &&
(cd /repo && "$tmp/instr" -repo /repo -out "$tmp" -harness "$OLDPWD/zzv" && go build -overlay "$tmp/overlay.json" -o "$tmp/mc" ./zzv/mc)
