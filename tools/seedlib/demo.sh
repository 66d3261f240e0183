#!/bin/bash
# Runs the tests of demo_test.go (beside this file) inside the package under test,
# by way of a build overlay: nothing is written to the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 1
repo=$(pwd)
cat "$here/demo_test.go" > "$t/demo_test.go"
cat "$here/common_test.go" > "$t/common_test.go"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_common_test.go":"%s/common_test.go"}}' "$repo" "$t" "$repo" "$t" > "$t/overlay.json"
extra=()
[ -f "$here/flags" ] && read -r -a extra < "$here/flags"
timeout 250 go test -vet=off -count=1 -timeout 200s "${extra[@]}" -overlay "$t/overlay.json" -run '^TestVD' . 
rc=$?
find "$t" -delete
exit $rc
