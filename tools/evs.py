import sys
sys.path.insert(0,'/verif')
from ipm.repo import Repo
from ipm.execute import Exec
r=Repo()
ex=Exec(r)
res=ex.run(sys.argv[1])
for e in res.events:
    if len(sys.argv)<3 or e.kind in sys.argv[2].split(','):
        print(e.kind,e.name,[str(a)[:90] for a in e.args],{k:str(v)[:60] for k,v in e.kw.items()},'| pc',str(e.pc)[:120])
