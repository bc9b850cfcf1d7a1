#!/bin/bash
# Builds the analyser from the committed sources (offline, standard library only).
set -e
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
cd checker
GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/checker .
