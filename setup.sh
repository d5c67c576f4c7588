#!/bin/bash
# builds the framework once (every check builds it again from /repo's working tree)
cd /verif/mc && . /verif/env.sh && mkdir -p /verif/.build && go build -o /verif/.build/mc ./cmd/mc
