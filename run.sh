#!/bin/bash
# run.sh PROPERTY [flags]: builds the checker from /repo's working tree and runs one check.
cd /verif || exit 2
. /verif/env.sh
mkdir -p /verif/.build
cd /verif/mc && go build -o /verif/.build/mc ./cmd/mc || { echo "build failed"; exit 2; }
cd /verif && exec /verif/.build/mc check "$@"
