#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE < spec: makes seeded/ID from a textual edit.
spec sections separated by lines '=====': old text, new text, needs, what it breaks, demo file (Go test for package schema / sqlparser, or demo.sh when it starts with #!)."""
import sys,os,subprocess,json
id,prop,file=sys.argv[1:4]
parts=[x.strip('\n') for x in sys.stdin.read().split('\n=====\n')]
edits=[]
i=0
while parts[i]!='META':
    edits.append((parts[i],parts[i+1])); i+=2
needs,breaks,demo=parts[i+1:i+4]
d='/verif/seeded/'+id
os.makedirs(d,exist_ok=True)
fs=file.split(',')
src={f:open('/repo/'+f).read() for f in fs}
new=dict(src)
for o,n in edits:
    f=[f for f in fs if o in new[f]]
    if len(f)!=1 or new[f[0]].count(o)!=1: sys.exit('edit matches %s %d times: %s'%(f,sum(new[x].count(o) for x in fs),o))
    new[f[0]]=new[f[0]].replace(o,n)
for f in fs: open('/repo/'+f,'w').write(new[f])
diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
open(d+'/patch.diff','w').write(diff)
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
if demo.startswith('#!'):
    open(d+'/demo.sh','w').write(demo+'\n')
else:
    pkg=demo.split('\n')[0].split()[1].replace('_test','')
    open(d+'/demo_test.go.txt','w').write(demo+'\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go.txt as a test of package %s, laid over the tree.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/%s/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}" > "$t/ov.json"
go test -vet=off -count=1 -overlay "$t/ov.json" ./%s -run '^TestDemo$'
'''%(pkg,pkg,pkg))
os.chmod(d+'/demo.sh',0o755)
print('wrote',d)
