#!/bin/bash
# Builds the analyser from the committed files, offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
cd sa
go build -o ../bin/sa .
# fill the build cache for what the analyser asks the go command on every run
(cd /repo && go list -deps ./deflect/... ./integr/... >/dev/null)
