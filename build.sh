#!/bin/bash
# Builds the symbolic engine from the committed files (offline).
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
for go in /usr/local/bin/go go1.27 go go1.26; do
  if command -v $go >/dev/null && $go build -o ../bin/gosym.tmp . ; then mv ../bin/gosym.tmp ../bin/gosym; exit 0; fi
done
exit 1
