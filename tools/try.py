import sys; sys.path.insert(0,'/verif')
import shutil,traceback
out='/tmp/ipmdbg2'; shutil.rmtree(out,ignore_errors=True)
shutil.copytree('/repo',out,ignore=shutil.ignore_patterns('.git','*.pickle','referenceOutput'))
f,a,b,q=sys.argv[1:5]
p=out+'/impurityModel/ed/'+f
s=open(p).read(); assert s.count(a)>=1, "no such text"; s=s.replace(a,b,1); open(p,'w').write(s)
from ipm.check import Checker
c=Checker(out)
try:
    for k,(st,ls) in c.compare(q).items():
        if st!='same':
            from ipm.compare import outline; print(k,st,len(ls),len({(x.kind, outline(x.a), outline(x.b)) for x in ls}))
            ls=sorted(ls,key=lambda l:l.definite)
            for l in ls[:8]: print('   ',l.definite,str(l)[:400])
except Exception: traceback.print_exc()
