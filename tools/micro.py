"""micro.py FILE: pairs of snippets separated by lines '=== expect' ; each pair 'ref' / '---' / 'cur' bodies of def f(...). Prints verdicts."""
import sys, os, tempfile, threading, shutil
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000); threading.stack_size(512 << 20)
from vg.repo import Repo
from vg.equiv import Validator
HEAD = "import numpy as np\nimport scipy as scp\nimport warnings\nimport copy\nimport pandas as pd\nimport math\n"
def go():
    txt = open(sys.argv[1]).read()
    only = sys.argv[2:]
    for blk in txt.split("\n=== ")[1:]:
        head, body = blk.split("\n", 1)
        exp, nm = (head.split(" ", 1) + [""])[:2]
        if only and not any(o in nm for o in only):
            continue
        a, b = body.split("\n---\n")
        d = tempfile.mkdtemp(dir="/tmp/mx")
        for k, s in (("r", a), ("c", b)):
            os.makedirs(f"{d}/{k}"); open(f"{d}/{k}/m.py", "w").write(HEAD + s + "\n")
        V = Validator(Repo(d + "/c"), Repo(d + "/r"), 1, "quick", budget_s=10)
        try:
            r = V.check("m.f")
            v = r.verdict
            w = r.why
        except BaseException as e:
            v, w = "ERR", repr(e)
        print("ok " if v == exp else "BAD", v, "expected", exp, nm, "" if v == exp else w, flush=True)
        shutil.rmtree(d)
t = threading.Thread(target=go); t.start(); t.join()
