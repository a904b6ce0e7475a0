#!/bin/bash
# runs demo_test.go, which lies beside this script, inside /repo's module
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
echo '{"Replace":{"/repo/internal/zzdemo/demo_test.go":"'"$here"'/demo_test.go"}}' > "$work/overlay.json"
cd /repo && go test -vet=off -overlay "$work/overlay.json" $DEMO_FLAGS -c -o "$work/demo.test" ./internal/zzdemo || exit 2
cd "$work" && ./demo.test -test.timeout 200s
