#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/vsym"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOWORK=off
mkdir -p ../bin
go build -o ../bin/vsym ./cmd/vsym
