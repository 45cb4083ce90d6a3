"""allfn.py DIR [REF]: compare every function of DIR/.. with the reference, in parallel; prints what is not EQUAL"""
import sys, os, threading, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from vg.repo import Repo
from vg import decide


def main():
    t = time.time()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    cur, ref = Repo(sys.argv[1]), Repo(sys.argv[2] if len(sys.argv) > 2 else os.path.join(here, "spec/ref"))
    jobs = [(q, q, None) for q in cur.funcs if q in ref.funcs and decide.ast_key(cur.funcs[q]) != decide.ast_key(ref.funcs[q])]
    r = decide.Equiv(cur, ref, 1, "quick", t + 3000).many(jobs)
    c = collections.Counter(x["verdict"] for x in r.values())
    for j, x in sorted(r.items()):
        if x["verdict"] != "EQUAL":
            print(x["verdict"], j[0], x["out"], str(x["why"])[:150], x["lines"][:5])
    print(dict(c), round(time.time() - t, 1), flush=True)
    os._exit(0)


th = threading.Thread(target=main); th.start(); th.join()
