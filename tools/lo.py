"""lo.py DIR QUAL UNROLL [DEPTH] [INL]: smallest sub-terms on each side without counterpart"""
import sys,threading
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import *
from vg import core,fp
def main():
    V=Validator(Repo(sys.argv[1]),Repo('/repo/src/mssm'),budget_s=60)
    q=sys.argv[2]; un=int(sys.argv[3]); depth=int(sys.argv[4]) if len(sys.argv)>4 else 5
    inl=frozenset(sys.argv[5].split(',')) if len(sys.argv)>5 else frozenset()
    o1,b1=V.build('cur',q,inl,un); o2,b2=V.build('ref',q,inl,un)
    if o1 is None or o2 is None: print(b1,b2); return
    o1,o2=V.same_lengths(o1,b1,o2,b2)
    bad,A,B,voc=V.diff(o1,o2,V.seeds(160),q)
    print({k:v[:1] for k,v in bad.items()})
    for k,v in list(bad.items())[:1]:
        t=v[0]; sd,wild=t[:2]; salts,hot=t[2:4] if len(t)>2 else (None,())
        I1=fp.Interp(sd,wild,voc,V.mro,salts=salts,hot=hot); I2=fp.Interp(sd,wild,voc,V.mro,salts=salts,hot=hot)
        def live(root,I):
            seen={}; todo=[root]
            while todo:
                n=todo.pop()
                if n.id in seen: continue
                seen[n.id]=n
                if n.op=='ite' and not n.free:
                    c=I.truth(I.val(n.args[0],{}))
                    todo.append(n.args[0]); todo.append(n.args[1] if c else n.args[2])
                else: todo.extend(n.args)
            return seen
        def digs(I,root):
            d={}
            for n in live(root,I).values():
                if n.free: continue
                try:
                    x=I.val(n,{})
                    if n.op in('cmp','and','or','not','isinst'): continue
                    d[n.id]=(n,fp.dig(x))
                except Exception as e: pass
            return d
        d1,d2=digs(I1,A[k]),digs(I2,B[k])
        for nm,x,y,I in (('CUR',d1,d2,I1),('REF',d2,d1,I2)):
            have={z for _,z in y.values()}
            new=[n for n,z in x.values() if z not in have]; ids={n.id for n in new}
            leaf=[n for n in new if not any(c.id in ids for c in n.args)]
            print('==',nm,k,len(new))
            for n in leaf[:8]: print('  ',n.line,core.show(n,depth)[:700],'=',repr(I.val(n,{}))[:80])
t=threading.Thread(target=main); t.start(); t.join()
