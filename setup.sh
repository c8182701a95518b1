#!/bin/bash
# Warms the build cache; every check rebuilds from /repo by itself.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
cd "$(dirname "$0")/mc" && go build -o /dev/null . && echo setup ok
