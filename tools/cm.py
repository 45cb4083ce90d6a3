"""cm.py FILE.cpp QUAL OLD NEW [NTH]: verdict for a text edit of a C++ source"""
import sys,threading,shutil,os,tempfile
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import Validator
def main():
    f,q,old,new=sys.argv[1:5]; n=int(sys.argv[5]) if len(sys.argv)>5 else 0
    W=os.environ.get("W") or tempfile.mkdtemp(); shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo/src/mssm',W)
    p=[os.path.join(d,f) for d,_,fs in os.walk(W) if f in fs][0]
    s=open(p).read(); i=-1
    for _ in range(n+1): i=s.index(old,i+1)
    s=s[:i]+new+s[i+len(old):]; open(p,'w').write(s)
    V=Validator(Repo(W),Repo('/repo/src/mssm'),budget_s=25)
    if q=='?':
        q=[k for k in V.cur.funcs if k.startswith('cpp_')]
    else: q=[q]
    for k in q:
        r=V.check(k)
        if r.verdict!='EQUAL' or len(q)==1: print(r.verdict,k,getattr(r,'why',''),getattr(r,'out',''),getattr(r,'lines',''))
    print(V.cur.cpp_failed)
    if not os.environ.get("W"): shutil.rmtree(W)
t=threading.Thread(target=main); t.start(); t.join()
