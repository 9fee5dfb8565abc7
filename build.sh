#!/bin/sh
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")/tool"
mkdir -p ../bin
GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o ../bin/gosipsverif .
