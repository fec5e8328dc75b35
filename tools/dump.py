import sys
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from ipm.repo import Repo
from ipm.execute import Exec
from ipm.terms import show
r=Repo()
inl=[a[1:] for a in sys.argv[1:] if a[0]=='+']
for q in [a for a in sys.argv[1:] if a[0]!='+']:
    ex=Exec(r,inline=inl); res=ex.run(q)
    print('==',q,'value',show(res.value,12))
    for c in ex.cells.values():
        if c.log or c.kind in('loc',):
            print(' cell',c.id,c.kind,c.name,'init',show(c.init,6) if c.init is not None else None,'@',c.fn, c.loops)
            for u in c.log: print('     ',u)
    for e in res.events: print('  ',e, '->', show(e.res,4) if e.res is not None else '')
