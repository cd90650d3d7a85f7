#!/bin/bash
# Runs the defect demonstrations against a checkout (default /repo) through an overlay.
. /opt/vp/env.sh
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp /tmp/ov.XXXXXX.json)
echo "{\"Replace\": {\"$repo/genesis/zz_defects_test.go\": \"$here/defects_test.go\"}}" > "$ov"
cd "$repo" && go test -overlay "$ov" -vet=off -count=1 "${@:2}" -run TestF ./genesis/
rc=$?
rm -f "$ov"; exit $rc
