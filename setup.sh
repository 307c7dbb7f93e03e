#!/bin/bash
# Warms the build cache, everything is built from the sources by run.sh anyway.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
. ./env.sh
cd /repo && go build -buildvcs=false -o /dev/null ./cmd/fbdl
