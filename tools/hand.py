"""hr.py FILE: sections '### module qualname' + code; replaces the function (code may contain helpers before it) and validates"""
import sys,re,ast,shutil,textwrap,os
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000)
import threading; threading.stack_size(512*1024*1024)
from vg.repo import Repo
from vg.equiv import *
src=open(sys.argv[1]).read()
secs=re.split(r'^### ',src,flags=re.M)[1:]
W='/tmp/hr_'+os.path.basename(sys.argv[1]).split('.')[0]; shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo/src/mssm',W)
base=Repo('/repo/src/mssm')
quals=[]
bymod={}
for s in secs:
    h,code=s.split('\n',1); q=h.strip(); quals.append(q)
    bymod.setdefault(q.split('.')[0],[]).append((q,code))
for m,l in bymod.items():
    p=base.mods[m].path; lines=open(p).read().split('\n')
    l=[(base.funcs[q],q,code) for q,code in l]
    for f,q,code in sorted(l,key=lambda x:-x[0].lineno):
        code=textwrap.indent(textwrap.dedent(code).strip('\n'),' '*f.col_offset)
        st=min([f.lineno]+[d.lineno for d in f.decorator_list])
        lines[st-1:f.end_lineno]=code.split('\n')+['']
    np_=p.replace('/repo/src/mssm',W); open(np_,'w').write('\n'.join(lines)); ast.parse(open(np_).read())
def main():
    V=Validator(Repo(W),base,budget_s=25)
    qs=[q for q in V.common if q not in V.same]
    for q in qs:
        r=V.check(q); print(r.verdict,q,(repr(r)[:300] if r.verdict!='EQUAL' else ''))
t=threading.Thread(target=main); t.start(); t.join()
