#!/bin/bash
# Warms the build cache; every check builds again from /repo's working tree.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly TZ=Australia/Sydney
cd "$(dirname "$0")/mc" && go build -o /dev/null . && echo setup ok
