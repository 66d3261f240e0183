#!/bin/bash
# Builds the analyser from the committed sources (vendored dependencies), offline.
set -e
cd "$(dirname "$0")/analyzer"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"
export GOFLAGS=-mod=vendor GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
exec go build -trimpath -o ../bin/smverify .
