import sys
sys.path.insert(0,'/verif')
from ipm.check import Checker
ck=Checker()
q=sys.argv[1]
for w in ('code','spec'):
    for case in ck.cases(q):
        print(w,case)
        for k,t in ck.summary(q,w,case).items().items():
            if k in ('effects','raise'):
                for e in t.a: print('   ',str(e)[:230])
