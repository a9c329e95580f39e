#!/bin/bash
# bash /verif/run.sh ID quick|thorough   -- builds the explorer against /repo's working tree and decides one property
# bash /verif/run.sh --replay FILE       -- re-executes one recorded failing case
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GONOSUMDB='*' GONOSUMCHECK=1 TZ=Australia/Sydney
VERIF_DIR=$(cd "$(dirname "$0")" && pwd); export VERIF_DIR
BIN=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
cd "$VERIF_DIR/mc" || exit 2
if ! go build -o "$BIN/mc" . 2>"$BIN/err"; then
  cat "$BIN/err"; echo "build of the explorer against /repo failed"; exit 2
fi
if [ "$1" = --replay ]; then "$BIN/mc" replay "$2"; exit $?; fi
TIER=${2:-${VERIF_TIER:-quick}}
"$BIN/mc" "$1" "$TIER"
exit $?
