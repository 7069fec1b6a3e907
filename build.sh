#!/bin/bash
# builds the checker from /verif/checker (no network)
cd "$(dirname "$0")/checker" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../.bin && go build -o ../.bin/distcheck .
