#!/bin/bash
# setup.sh: builds the symbolic executor from the committed sources.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence replays
cd gosym
go build -o ../bin/gosym .
../bin/gosym list -repo /repo >/dev/null
