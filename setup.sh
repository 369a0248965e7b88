#!/bin/bash
# Builds the checker into /verif/bin.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p bin
cd checker
go build -o ../bin/checker.new . && mv ../bin/checker.new ../bin/checker
