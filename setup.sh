#!/bin/sh
# builds the analyser from its committed, vendored source (offline)
set -e
cd "$(dirname "$0")/checker"
mkdir -p ../bin
GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off go build -o ../bin/ck .
