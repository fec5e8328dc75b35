"""events of given kinds in every function"""
import sys; sys.path.insert(0,'/verif')
from ipm.repo import Repo
from ipm.execute import Exec
from ipm.terms import show
r=Repo(sys.argv[2] if len(sys.argv)>2 else None)
for q in r.funcs:
    try:
        res=Exec(r).run(q)
    except Exception as e:
        print(q,'CRASH',type(e).__name__,e); continue
    for e in res.events:
        if e.kind in sys.argv[1].split(','):
            print(q,e.kind,e.name,[show(a,3)[:150] for a in e.args],getattr(e.node,'lineno',0),[show(p,3)[:80] for p in e.pc])
