#!/bin/bash
# Builds the symbolic engine, offline, into /verif/bin (ignored by git).
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=${HOME:-/root}
exec go build -o ../bin/gosym .
