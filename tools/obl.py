"""obl.py DIR(src/mssm) PROP...: discharge only the reference-free obligations on a tree"""
import sys, time
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(100000)
import threading; threading.stack_size(512 << 20)
from vg.repo import Repo
from vg import oblig
def go():
    r = Repo(sys.argv[1])
    from vg import rules, lint
    ps = sys.argv[2:] or sorted(oblig.RULES)
    for p in ps:
        t = time.time(); o = oblig.discharge(p, r, "quick", 1, time.time() + 500)
        print(p, o["total"], o["ok"], "undecided", o["undecided"][:3], "BAD" if o["bad"] else "", o["bad"][:5], o["vacuous"], round(time.time() - t, 1), flush=True)
t = threading.Thread(target=go); t.start(); t.join()
