#!/bin/bash
# Builds the analyser into /verif/bin (offline, vendored dependencies).
set -e
cd "$(dirname "$0")/checker"
mkdir -p ../bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
go build -o ../bin/solidcheck.tmp.$$ .
mv ../bin/solidcheck.tmp.$$ ../bin/solidcheck
