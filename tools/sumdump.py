import sys,time
sys.path.insert(0,'/verif')
from ipm.repo import Repo
from ipm.execute import Exec
from ipm.summary import Summary
from ipm.terms import show, subterms
r=Repo()
quals=sys.argv[1:]
if quals==['all']: quals=sorted(r.funcs)
for q in quals:
    t=time.time()
    res=Exec(r).run(q); sm=Summary(res)
    it=sm.items()
    if len(sys.argv)==2 and sys.argv[1]=='all':
        dt=time.time()-t
        n=sum(1 for v in it.values() for _ in subterms(v))
        print(f"{q:50s} {dt:6.2f}s terms {n}")
        continue
    print('==',q)
    for k,v in it.items():
        print(' ',k,':')
        if v.op=='obj':
            print('    obj',show(v.a[1],6))
            for u in v.a[2:]: print('      ',show(u,9))
        elif v.op in('errs','effs'):
            for u in v.a: print('      ',show(u,9))
        else: print('    ',show(v,12))
