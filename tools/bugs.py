"""bugs.py FILE [n..]: blocks '### PROP file-name', old text, '====', new text. Applies each to a copy of /repo and runs the property's check on it."""
import sys, os, shutil, subprocess, re
from concurrent.futures import ThreadPoolExecutor
blocks = ("\n" + open(sys.argv[1]).read()).split("\n### ")[1:]
only = set(map(int, sys.argv[2:]))
def go(t):
    n, b = t
    head, body = b.split("\n", 1)
    prop, fn = head.split()[:2]
    opt = head.split()[2:]      # u: patch the unparsed text; N: N-th occurrence
    old, new = (body + "\n").split("\n====\n")
    new = new.rstrip("\n"); old = old.strip("\n")
    new = new.strip("\n")
    d = f"/tmp/bx/{os.path.basename(sys.argv[1])}_{n}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/src/mssm", d + "/src/mssm", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    path = subprocess.run(["find", d, "-name", fn], capture_output=True, text=True).stdout.split()[0]
    s = open(path).read()
    import ast
    if "u" in opt:
        s = ast.unparse(ast.parse(s))
    nth = next((int(o) for o in opt if o.isdigit()), None)
    if s.count(old) != 1 and nth is None or nth is not None and s.count(old) < nth:
        return n, prop, f"PATCH: {s.count(old)} matches", old[:60]
    i = -1
    for _ in range(nth or 1):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    if fn.endswith(".py"):
        ast.parse(s)
    open(path, "w").write(s)
    r = subprocess.run(["python3-vt", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), prop, "--repo", d], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": "0"})
    shutil.rmtree(d)
    out = r.stdout
    if r.returncode == 1 and "VIOLATION" in out:
        return n, prop, "caught", ""
    return n, prop, f"MISSED rc={r.returncode}", " | ".join(l[:230] for l in out.splitlines() if l.startswith(("undecided", "note"))) + r.stderr[-200:]
os.makedirs("/tmp/bx", exist_ok=True)
jobs = [(i, b) for i, b in enumerate(blocks, 1) if not only or i in only]
with ThreadPoolExecutor(3) as ex:
    c = 0
    for r in ex.map(go, jobs):
        c += r[2] == "caught"
        print(*r, flush=True)
print(f"{c}/{len(jobs)}")
