"""Mutation operators, used to measure what the value-graph comparison can see.  usage: mutate.py REPO N SEED"""
import ast, sys, os, random, copy, collections, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def sites(f):
    out = []
    skip = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and ast.unparse(x.func) in ("print", "warnings.warn", "tqdm", "ValueError", "NotImplementedError", "TypeError"):
            for y in ast.walk(x):
                skip.add(id(y))
        if isinstance(x, ast.arg) and x.annotation is not None:
            for y in ast.walk(x.annotation):
                skip.add(id(y))
        if isinstance(x, ast.AnnAssign):
            for y in ast.walk(x.annotation):
                skip.add(id(y))
    if f.returns is not None:
        for y in ast.walk(f.returns):
            skip.add(id(y))
    for x in ast.walk(f):
        if id(x) in skip:
            continue
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not isinstance(x.left, (ast.List, ast.JoinedStr)) and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)):
            out.append(("binop", x))
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.Div, ast.MatMult)):
            out.append(("swap", x))
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            out.append(("cmp", x))
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            out.append(("const", x))
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            out.append(("bool", x))
        if isinstance(x, ast.BoolOp):
            out.append(("boolop", x))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            out.append(("neg", x))
        if isinstance(x, ast.Call) and x.keywords:
            out.append(("dropkw", x))
        if isinstance(x, ast.Call) and len(x.args) >= 2:
            out.append(("swaparg", x))
        if isinstance(x, ast.Call) and ast.unparse(x.func) in ("copy.deepcopy", "np.abs", "np.exp", "np.log", "np.sqrt"):
            out.append(("unwrap", x))
        if isinstance(x, ast.Attribute) and x.attr == "T":
            out.append(("unT", x))
        for fld in ("body", "orelse"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and len(b) > 1:
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and id(s.value) not in skip):
                        out.append(("drop", (b, i)))
                    if isinstance(s, ast.If) and not s.orelse:
                        out.append(("uncond", (b, i)))
    return out


def apply(kind, x, rng):
    if kind == "binop":
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        x.op = m[type(x.op)]()
    elif kind == "swap":
        if ast.dump(x.left) == ast.dump(x.right):
            return False
        x.left, x.right = x.right, x.left
    elif kind == "cmp":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        x.ops = [m[type(x.ops[0])]()]
    elif kind == "const":
        x.value = x.value + 1 if isinstance(x.value, int) else x.value * 2
    elif kind == "bool":
        x.value = not x.value
    elif kind == "boolop":
        x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
    elif kind == "neg":
        x.op = ast.UAdd()
    elif kind == "dropkw":
        x.keywords.pop(rng.randrange(len(x.keywords)))
    elif kind == "swaparg":
        i = rng.randrange(len(x.args) - 1)
        if ast.dump(x.args[i]) == ast.dump(x.args[i + 1]):
            return False
        x.args[i], x.args[i + 1] = x.args[i + 1], x.args[i]
    elif kind == "unwrap":
        x.func = ast.Name("_id", ast.Load())
        return "unwrap"
    elif kind == "unT":
        return "unT"
    elif kind == "drop":
        b, i = x
        b[i] = ast.Pass(lineno=b[i].lineno)
    elif kind == "uncond":
        b, i = x
        s = b[i]
        b[i] = ast.If(ast.Constant(True), s.body, [], lineno=s.lineno)
    return True


class Un(ast.NodeTransformer):
    def __init__(self, target):
        self.t = target

    def visit(self, n):
        if n is self.t:
            return n.args[0] if isinstance(n, ast.Call) else n.value
        return super().visit(n)


def main(root, N, seed, only=None):
    from vg.repo import Repo
    from vg.equiv import Validator
    rng = random.Random(seed)
    ref, cur = Repo(root), Repo(root)
    V = Validator(cur, ref)
    c = collections.Counter()
    ck = collections.Counter()
    fs = [q for q in cur.funcs if (only is None or any(o in q for o in only))]
    # weight functions by number of sites
    pool = []
    for q in fs:
        pool += [q] * min(40, len(sites(cur.funcs[q])))
    t0 = time.time()
    for _ in range(N):
        q = rng.choice(pool)
        f = cur.funcs[q]
        body0, args0 = copy.deepcopy(f.body), copy.deepcopy(f.args)
        ss = sites(f)
        kind, x = rng.choice(ss)
        line = x[0][x[1]].lineno if isinstance(x, tuple) else getattr(x, "lineno", 0)
        before = ast.unparse(f)
        r = apply(kind, x, rng)
        if r in ("unwrap", "unT"):
            Un(x).visit(f)
        ast.fix_missing_locations(f)
        after = ast.unparse(f)
        if r and before != after:
            V.bmemo = {k: v for k, v in V.bmemo.items() if k[0] == "ref"}
            V.rmemo.clear()
            V.same.discard(q)
            try:
                res = V.check(q)
                v = res.verdict
            except Exception as e:
                v, res = "ERR", repr(e)[:200]
            V.same.add(q)
            c[v] += 1
            ck[(kind, v)] += 1
            if v != "DIFF":
                import difflib
                d = [l for l in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0) if l[0] in "+-" and l[:3] not in ("+++", "---")]
                print(v, kind, q, line, " || ".join(s[:110] for s in d[:4]), getattr(res, "why", res) if v != "EQUAL" else "", flush=True)
        f.body[:] = body0
        f.args = args0
    print(dict(c), round(time.time() - t0, 1))
    for k in sorted(ck):
        print(k, ck[k])


if __name__ == "__main__":
    t = threading.Thread(target=lambda: main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:] or None))
    t.start()
    t.join()
