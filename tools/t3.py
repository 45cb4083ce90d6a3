import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000)
import threading; threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import *
import time,collections
cur=sys.argv[1]; ref=sys.argv[2]
only=sys.argv[3:] 
def main():
    t=time.time()
    V=Validator(Repo(cur),Repo(ref),budget_s=float(__import__("os").environ.get("BUD","25")))
    c=collections.Counter()
    qs=[q for q in V.cur.funcs if q in V.ref.funcs]
    if only: qs=only
    for q in qs:
        if not only and q in V.same: c['same']+=1; continue
        r=V.check(q); c[r.verdict]+=1
        if r.verdict!='EQUAL' or only: print(r)
    print(c,V.stats,round(time.time()-t,1))
t=threading.Thread(target=main); t.start(); t.join()
