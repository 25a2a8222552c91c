#!/bin/bash
# Builds the harness once, to fail early when something is missing.
set -e
cd "$(dirname "$0")/harness"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
go vet .
go test -c -o /dev/null .
