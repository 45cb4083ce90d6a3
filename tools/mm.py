"""mm.py QUAL OLD NEW : apply text edit in the module of QUAL within the function, validate"""
import sys,shutil,threading
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import *
q,old,new=sys.argv[1:4]
W='/tmp/mm_w'; shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo/src/mssm',W)
base=Repo('/repo/src/mssm'); f=base.funcs[q]; p=base.mods[q.split('.')[0]].path.replace('/repo/src/mssm',W)
L=open(p).read().split('\n'); seg='\n'.join(L[f.lineno-1:f.end_lineno]); old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
assert seg.count(old)>=1,seg.count(old)
L[f.lineno-1:f.end_lineno]=seg.replace(old,new,1).split('\n'); open(p,'w').write('\n'.join(L))
def main():
    V=Validator(Repo(W),base,budget_s=25)
    for k in [k for k in V.common if k not in V.same]:
        r=V.check(k); print(r.verdict,k,repr(r)[:400])
t=threading.Thread(target=main); t.start(); t.join()
