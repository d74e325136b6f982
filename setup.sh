#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/checker .
