import sys,ast; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from vg.repo import Repo
R=Repo('/repo/src/mssm')
for q in sys.argv[1:]:
    f=R.funcs[q]
    b=f.body
    if isinstance(b[0],ast.Expr) and isinstance(b[0].value,ast.Constant): f.body=b[1:]
    print('##',q); print(ast.unparse(f))
