import sys, time
from mirdb import Dump
from rules import *
import reasons, passes
import collections
def main(dump, models='/tmp/models.json', verbose=1):
    D=Dump(dump); M=Dump(models)
    R=Report(); t=time.time()
    runs=core_runs(D,M,'x')
    for n,r in runs.items():
        if r.error: print('ERR',n,r.error)
        if r.it.unknown_calls: print('UNK',n,r.it.unknown_calls)
    for f in dict.fromkeys(CORE_RULES.values()):
        for r in runs.values():
            if not r.error: f(R,r)
    print('time',round(time.time()-t,2))
    c=collections.Counter()
    for (p,rule,_),v in R.obl.items(): c[(p,rule,v)]+=1
    if verbose:
        for k in sorted(c): print(k,c[k])
    for k,v in R.bad.items(): print('BAD',k,v)
    if verbose:
        for k,v in R.unk.items(): print('UNKN',k,v)
if __name__=='__main__': main(*sys.argv[1:2], verbose=len(sys.argv)<3)
