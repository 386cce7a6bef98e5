import sys,time
from core_ai import Prog
from common import *
import importlib
C={}
D=sys.argv[1]
def P(n):
    if n not in C: C[n]=Prog(D+'/%s.json'%n)
    return C[n]
import glob
R={}
for m in ['r_style','r_core','r_ansi','r_html','r_plain','r_macros','r_api']:
    try: R.update(importlib.import_module(m).RULES)
    except ModuleNotFoundError as e: pass
for r in (sys.argv[2:] or sorted(R)):
    t=time.time()
    rep=Report(r)
    R[r](rep,P)
    print(r,'%.1fs'%(time.time()-t),'obl',[(a.split('::')[-2:],n) for a,n,_ in rep.obl] if len(rep.obl)<14 else len(rep.obl),{k:(v if not isinstance(v,set) else len(v)) for k,v in rep.stats.items()})
    for k,v in rep.viol.items(): print('   VIOL',k,'\n        ',v)
    for k,v in rep.undecided.items(): print('   UNDEC',k,v)
