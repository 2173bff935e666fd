#!/bin/bash
# Builds the checker from the committed sources, offline.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p "$V/.build"
cd "$V/gvc" && GOFLAGS=-mod=vendor go build -o "$V/.build/gvc" .
