import sys,time
sys.path.insert(0,'/verif')
from ipm.check import Checker
ck=Checker(sys.argv[1] if len(sys.argv)>1 and sys.argv[1].startswith('/') else None)
qs=[a for a in sys.argv[1:] if not a.startswith('/') and a!='-v']
v='-v' in sys.argv
from ipm.terms import show
for q in (qs or sorted(ck.specs)):
    t=time.time()
    for item,(st,leaves) in ck.compare(q).items():
        if st!='same' or v:
            print(q,item,st,f"{time.time()-t:.2f}s")
            for l in sorted(leaves,key=lambda l:l.definite)[:8]: print('     ',l.definite,str(l)[:700])
    if not qs: pass
print(len(qs or ck.specs),'compared')
