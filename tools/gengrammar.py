# writes mc/prs/grammar.txt: the productions of sqlparser/parser.y and the text of every terminal (run once; the result is committed)
import re
y=open('/repo/sqlparser/parser.y').read()
t=open('/repo/sqlparser/token.go').read()
kw={}
for s,n in re.findall(r'^\t"([^"]+)":\s+([A-Z_0-9]+),',t,re.M):
    if n!='UNUSED': kw.setdefault(n,s)
body=y.split('%%')[1]
out=[];i=0;lhs=None;alts=None
# strip actions and comments
def strip(s):
    r=[];i=0;d=0
    while i<len(s):
        if s.startswith('/*',i) and d==0:
            i=s.index('*/',i)+2;continue
        if s.startswith('//',i):
            i=s.index('\n',i);continue
        c=s[i]
        if d>0 and c in '"`':
            j=s.index(c,i+1);i=j+1;continue
        if d>0 and c=="'" :
            j=s.index("'",i+1)
            i=j+1;continue
        if c=="'" and d==0:
            r.append(s[i:i+3]);i+=3;continue
        if c=='{': d+=1
        elif c=='}': d-=1; r.append(' ');
        elif d==0: r.append(c)
        i+=1
    return ''.join(r)
b=strip(body)
toks=re.findall(r"'.'|%prec|[A-Za-z_0-9]+|[:|;]",b)
rules=[];i=0;cur=None;rhs=None
while i<len(toks):
    if i+1<len(toks) and toks[i+1]==':':
        if cur: rules.append((cur,rhs))
        cur=toks[i];rhs=[];i+=2;continue
    if toks[i]=='|':
        rules.append((cur,rhs));rhs=[]
    elif toks[i]=='%prec': i+=1
    elif toks[i]==';': pass
    else: rhs.append(toks[i])
    i+=1
rules.append((cur,rhs))
nts={l for l,_ in rules}
special={'ID':'a','STRING':"'s'",'HEX':"x'0a'",'INTEGRAL':'1','FLOAT':'1.5','HEXNUM':'0x1f','VALUE_ARG':':v','LIST_ARG':'::l','BIT_LITERAL':"b'1'",'COMMENT':'/* c */','LE':'<=','GE':'>=','NE':'!=','NULL_SAFE_EQUAL':'<=>','AND':'and','OR':'or','SHIFT_LEFT':'<<','SHIFT_RIGHT':'>>','JSON_EXTRACT_OP':'->','JSON_UNQUOTE_EXTRACT_OP':'->>','TYPECAST':'::','UNUSED':'cursor','INTEGRAL':'1'}
term={}
for l,r in rules:
    for x in r:
        if x in nts or x=='error': continue
        if x[0]=="'": term[x]=x[1]
        elif x in special: term[x]=special[x]
        elif x in kw: term[x]=kw[x]
        else: print('no text for',x)
with open('/verif/mc/prs/grammar.txt','w') as f:
    for x in sorted(term): f.write('T %s %s\n'%(x,term[x]))
    for l,r in rules:
        if 'error' in r: print('skip',l,r); continue
        f.write('R %s %s\n'%(l,' '.join(r)))
print(len(rules),len(nts),len(term))
