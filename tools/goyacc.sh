#!/bin/bash
# regenerates /repo/sqlparser/parser.go from parser.y in the form the committed file has (an older goyacc: int tables, flag -1000); writes /tmp/gy/parser.go
set -e
. /verif/env.sh
mkdir -p /tmp/gy
[ -x /tmp/gy/goyacc ] || (cd $(go env GOMODCACHE)/golang.org/x/tools@v0.51.0 && GOFLAGS=-mod=mod go build -o /tmp/gy/goyacc ./cmd/goyacc)
rm -rf /tmp/gy/r; mkdir -p /tmp/gy/r/sqlparser; cp /repo/sqlparser/parser.y /tmp/gy/r/sqlparser/
cd /tmp/gy/r && /tmp/gy/goyacc -o sqlparser/parser.go sqlparser/parser.y
python3 - <<'P'
import re
p='/tmp/gy/r/sqlparser/parser.go'
s=open(p).read()
s=re.sub(r'\[\.\.\.\]u?int(8|16|32)\{','[...]int{',s).replace('-32768','-1000')
while True:
    n=re.sub(r'\bint\((yy[A-Za-z0-9]+\[[^()]*\](?:\.yys\])?)\)',r'\1',s)
    if n==s: break
    s=n
open(p,'w').write(s)
P
gofmt -w sqlparser/parser.go
cp sqlparser/parser.go /tmp/gy/parser.go
