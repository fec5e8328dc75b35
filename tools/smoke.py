import sys,time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(20000)
from ipm.repo import Repo
from ipm.execute import Exec
r=Repo()
bad=0
for q in sorted(r.funcs):
    t=time.time()
    try:
        ex=Exec(r); res=ex.run(q)
        unk=[e for e in res.events if e.kind=='unknown']
        print(f"{q:55s} {time.time()-t:6.2f}s ev={len(res.events)} unk={len(unk)}", [str(e)[:80] for e in unk[:2]])
    except BaseException as e:
        bad+=1; print(q,'FAIL',type(e).__name__,str(e)[:150])
print('bad',bad)
