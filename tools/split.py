# split.py FILE  < spec lines: msg|key1|key2 ; splits HEAD..worktree of FILE into commits
import subprocess,sys,difflib
f=sys.argv[1]
fin=open('/repo/'+f).read().splitlines(True)
def head(): return subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True).stdout.splitlines(True)
for line in sys.stdin.read().strip().splitlines():
    msg,*keys=line.split('|')
    a=head(); out=[]
    for tag,i1,i2,j1,j2 in difflib.SequenceMatcher(None,a,fin,autojunk=False).get_opcodes():
        t=''.join(fin[j1:j2])+''.join(a[i1:i2])
        if tag!='equal' and any(k in t for k in keys): out+=fin[j1:j2]
        else: out+=a[i1:i2]
    open('/repo/'+f,'w').write(''.join(out))
    subprocess.run(['gofmt','-l','/repo/'+f]); 
    subprocess.run('cd /repo && git add %s && git commit -qm "%s"'%(f,msg.replace('"','\\"')),shell=True,check=True)
open('/repo/'+f,'w').write(''.join(fin))
