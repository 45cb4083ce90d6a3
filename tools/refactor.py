"""Behaviour-preserving source transformations, used to look for false alarms.  usage: refactor.py SRC DST KIND SEED"""
import ast, sys, os, random, shutil, copy


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def simple(n):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp)) for x in ast.walk(n))


class Base(ast.NodeTransformer):
    def __init__(self, rng):
        self.rng = rng
        self.k = 0
        self.n = 0


def locals_of(f):
    args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
    if f.args.vararg: args.add(f.args.vararg.arg)
    if f.args.kwarg: args.add(f.args.kwarg.arg)
    st = names(f, ast.Store)
    glob = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f:
            glob |= {a.arg for a in x.args.args + x.args.kwonlyargs}
            if isinstance(x, ast.FunctionDef):
                glob.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            glob |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            glob.add(x.name)
    return st - args - glob, args


class Rename(Base):
    def visit_FunctionDef(self, f):
        loc, _ = locals_of(f)
        loc -= {"i", "l", "f", "ri", "rs", "fs", "li", "irf"}
        m = {v: v + "_r" for v in loc}
        self.n += len(m)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return f


class Temps(Base):
    """name sub-expressions of returns and assignments"""
    def block(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                if hasattr(s, fld) and isinstance(getattr(s, fld), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, fld, self.block(getattr(s, fld)))
            for hd in getattr(s, "handlers", []):
                hd.body = self.block(hd.body)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.BinOp) and self.rng.random() < .7:
                self.k += 1
                t = f"tmp_v{self.k}"
                side = self.rng.choice(["left", "right"])
                e = getattr(s.value, side)
                if side == "right" and not simple(e) and not simple(s.value.left):
                    e = s.value.left
                    side = "left"
                if not isinstance(e, (ast.Constant, ast.Name)):
                    out.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=e, lineno=s.lineno))
                    setattr(s.value, side, ast.Name(t, ast.Load()))
                    self.n += 1
            elif isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                self.k += 1
                t = f"tmp_v{self.k}"
                out.append(ast.Assign(targets=[ast.Name(t, ast.Store())], value=s.value, lineno=s.lineno))
                s.value = ast.Name(t, ast.Load())
                self.n += 1
            out.append(s)
        return out

    def visit_FunctionDef(self, f):
        f.body = self.block(f.body)
        return f


class Invert(Base):
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) and self.rng.random() < .8:
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
            self.n += 1
        return s

    def visit_IfExp(self, e):
        self.generic_visit(e)
        self.n += 1
        return ast.IfExp(ast.UnaryOp(ast.Not(), e.test), e.orelse, e.body)


class Compare(Base):
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and type(e.ops[0]) in self.SW and self.rng.random() < .8:
            self.n += 1
            return ast.Compare(e.comparators[0], [self.SW[type(e.ops[0])]()], [e.left])
        return e


class Unelse(Base):
    """if a: ...return  else: X  ->  if a: ...return; X"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                o, s.orelse = s.orelse, []
                out.append(s)
                out.extend(self.fix(o))
                self.n += 1
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        ast.NodeTransformer.generic_visit(self, n)
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                setattr(n, fld, self.fix(b))
        return n


class Reelse(Base):
    """if a: ...return ; X -> if a: ...return else: X"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body) and self.rng.random() < .8:
                s.orelse = self.fix(body[i + 1:])
                self.n += 1
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, f):
        f.body = self.fix(f.body)
        return f


class Comp(Base):
    """for x in it: l.append(e) -> l.extend([e for x in it]);  [] + loop -> comprehension"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and len(s.body) == 1 and not s.orelse:
                b = s.body[0]
                cond = None
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    cond, b = b.test, b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name):
                    l = b.value.func.value.id
                    if l not in names(b.value.args[0]):
                        comp = ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, [cond] if cond else [], 0)])
                        if out and isinstance(out[-1], ast.Assign) and isinstance(out[-1].targets[0], ast.Name) and out[-1].targets[0].id == l and isinstance(out[-1].value, ast.List) and not out[-1].value.elts:
                            out[-1].value = comp
                        else:
                            out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(l, ast.Load()), "extend", ast.Load()), [comp], [])))
                        self.n += 1
                        continue
            out.append(s)
        return out

    def generic_visit(self, n):
        ast.NodeTransformer.generic_visit(self, n)
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                setattr(n, fld, self.fix(b))
        return n


class Uncomp(Base):
    """x = [e for t in it if c] -> loop"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
                self.k += 1
                g = s.value.generators[0]
                t = f"acc_{self.k}"
                ap = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                inner = [ap]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                m = {v: f"{v}_c{self.k}" for v in names(g.target)}
                for q in [g.target] + inner:
                    for x in ast.walk(q):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                out.append(ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=s.lineno))
                out.append(ast.For(g.target, g.iter, inner, [], lineno=s.lineno))
                s.value = ast.Name(t, ast.Load())
                self.n += 1
            out.append(s)
        return out
    generic_visit = Comp.generic_visit


class While(Base):
    """for i in range(n) -> while"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name) and len(s.iter.args) <= 2 \
               and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and self.rng.random() < .6 and s.target.id not in {n for b in s.body for n in names(b, ast.Store)}:
                self.k += 1
                a = s.iter.args
                lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                i, n = f"it_{self.k}", f"nn_{self.k}"
                L = lambda v: ast.Name(v, ast.Load())
                out.append(ast.Assign([ast.Name(n, ast.Store())], hi, lineno=s.lineno))
                out.append(ast.Assign([ast.Name(i, ast.Store())], lo, lineno=s.lineno))
                nb = [ast.Assign([s.target], L(i), lineno=s.lineno)] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1), lineno=s.lineno)]
                out.append(ast.While(ast.Compare(L(i), [ast.Lt()], [L(n)]), nb, [], lineno=s.lineno))
                self.n += 1
                continue
            out.append(s)
        return out
    generic_visit = Comp.generic_visit


class Enum(Base):
    """for x in xs -> for i in range(len(xs)): x = xs[i]   ; enumerate(xs) likewise (xs a plain name/attribute)"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and self.rng.random() < .8:
                it = s.iter
                L = lambda v: ast.Name(v, ast.Load())
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and isinstance(it.args[0], (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                    xs = it.args[0]
                    i = s.target.elts[0].id
                    s.body = [ast.Assign([s.target.elts[1]], ast.Subscript(xs, L(i), ast.Load()), lineno=s.lineno)] + s.body
                    s.target = ast.Name(i, ast.Store())
                    s.iter = ast.Call(L("range"), [ast.Call(L("len"), [xs], [])], [])
                    self.n += 1
                elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and all(isinstance(a, (ast.Name)) for a in it.args) and isinstance(s.target, ast.Tuple):
                    self.k += 1
                    i = f"z_{self.k}"
                    s.body = [ast.Assign([t], ast.Subscript(a, L(i), ast.Load()), lineno=s.lineno) for t, a in zip(s.target.elts, it.args)] + s.body
                    s.iter = ast.Call(L("range"), [ast.Call(L("len"), [it.args[0]], [])], [])
                    s.target = ast.Name(i, ast.Store())
                    self.n += 1
            out.append(s)
        return out
    generic_visit = Comp.generic_visit


class Reorder(Base):
    def fix(self, body):
        b = list(body)
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets + y.targets) and self.rng.random() < .7:
                sx, sy = names(x, ast.Store), names(y, ast.Store)
                if not (sx & names(y)) and not (sy & names(x)) and pure(x.value) and pure(y.value):
                    b[i], b[i + 1] = y, x
                    self.n += 1
        return b
    generic_visit = Comp.generic_visit


PURE = {"zeros", "ones", "log", "exp", "sqrt", "array", "sum", "len", "abs", "reshape", "flatten", "transpose", "copy", "deepcopy", "diag", "concatenate", "range", "max", "min", "float", "int", "power", "isnan", "any"}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
            if nm not in PURE:
                return False
        if isinstance(x, (ast.NamedExpr, ast.Lambda)):
            return False
    return True


class Extract(Base):
    """move a run of straight-line statements into a new module-level function"""
    def __init__(self, rng):
        super().__init__(rng)
        self.new = []

    def visit_FunctionDef(self, f):
        loc, args = locals_of(f)
        scope = loc | args
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in f.body for x in ast.walk(b)):
            return f
        cand = []

        def scan(body, inloop):
            for i in range(len(body)):
                for j in range(i + 1, min(len(body), i + 5) + 1):
                    run = body[i:j]
                    if all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) for s in run) or \
                       (len(run) == 1 and isinstance(run[0], (ast.For, ast.If)) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for x in ast.walk(run[0]))):
                        if not any(isinstance(x, (ast.Yield, ast.NamedExpr)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super") for s in run for x in ast.walk(s)):
                            cand.append((body, i, j))
            for s in body:
                for fld in ("body", "orelse"):
                    if isinstance(s, (ast.If, ast.For, ast.While)):
                        scan(getattr(s, fld), inloop or isinstance(s, (ast.For, ast.While)))
        scan(f.body, False)
        if not cand:
            return f
        body, i, j = self.rng.choice(cand)
        run = body[i:j]
        mod = ast.Module(run, [])
        reads = sorted(names(mod) & scope)
        writes = sorted(names(mod, ast.Store) & scope)
        # definitely assigned before? keep only reads that are params or assigned earlier in text
        before = set(args)
        for s in ast.walk(f):
            pass
        first = run[0].lineno
        assigned = args | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < first}
        ins = []
        straight = not isinstance(run[0], (ast.For, ast.If))
        defd = set()
        for r in reads:
            if r in assigned:
                ins.append(r)
        if not straight:
            # conditionally assigned outputs must be defined on entry
            for w in writes:
                if w not in ins:
                    after = any(isinstance(x, ast.Name) and x.id == w and x.lineno > run[0].end_lineno for x in ast.walk(f))
                    if after:
                        return f
            writes = [w for w in writes if w in ins]
            # an entry variable may itself be unassigned on some path: require unconditional top-level or parameter
            top = args | {t.id for s in f.body if isinstance(s, ast.Assign) and s.lineno < first for t in s.targets if isinstance(t, ast.Name)}
            if any(r not in top for r in ins):
                return f
        else:
            st = set()
            need = set()
            for s in run:
                need |= (names(s.value) & scope) - st
                st |= names(s, ast.Store)
            ins = sorted(need)
            top = args | {t.id for s in f.body if isinstance(s, ast.Assign) and s.lineno < first for t in s.targets if isinstance(t, ast.Name)}
            if body is f.body and any(r not in assigned for r in ins):
                return f
        if not writes and straight:
            return f
        self.k += 1
        nm = f"_helper_{f.name.strip('_')}_{self.k}"
        L = lambda v: ast.Name(v, ast.Load())
        ret = [ast.Return(ast.Tuple([L(w) for w in writes], ast.Load()) if len(writes) != 1 else L(writes[0]))] if writes else []
        pn = {r: (r if r != "self" else "obj") for r in ins}
        run2 = copy.deepcopy(run)
        for s in run2:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == "self":
                    x.id = "obj"
                if isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__"):
                    return f
        fn = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(pn[r]) for r in ins], kwonlyargs=[], kw_defaults=[], defaults=[]), body=run2 + ret, decorator_list=[], lineno=1)
        call = ast.Call(L(nm), [L(r) for r in ins], [])
        if writes:
            tgt = ast.Tuple([ast.Name(w, ast.Store()) for w in writes], ast.Store()) if len(writes) != 1 else ast.Name(writes[0], ast.Store())
            st = ast.Assign([tgt], call, lineno=run[0].lineno)
        else:
            st = ast.Expr(call)
        body[i:j] = [st]
        self.new.append(fn)
        self.n += 1
        return f


class Aug(Base):
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
            self.n += 1
            return ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), lineno=s.lineno)
        return s


class Alg(Base):
    """numeric re-association: x**2 -> np.power(x,2), a*b -> b*a for non-list operands, -(a) etc."""
    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and self.rng.random() < .7:
            self.n += 1
            return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "power", ast.Load()), [e.left, e.right], [])
        if isinstance(e.op, ast.Sub) and self.rng.random() < .3 and not isinstance(e.right, ast.Constant):
            self.n += 1
            return ast.BinOp(e.left, ast.Add(), ast.UnaryOp(ast.USub(), e.right))
        if isinstance(e.op, ast.Div) and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.Mult) and self.rng.random() < .7:
            self.n += 1
            return ast.BinOp(e.left.left, ast.Mult(), ast.BinOp(e.left.right, ast.Div(), e.right))
        return e


class NoOp(Base):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0), lineno=f.lineno))
        self.n += 1
        return f


KINDS = dict(rename=Rename, temps=Temps, invert=Invert, compare=Compare, unelse=Unelse, reelse=Reelse, comp=Comp, uncomp=Uncomp, whil=While, enum=Enum,
             reorder=Reorder, extract=Extract, aug=Aug, alg=Alg, noop=NoOp)


def main(src, dst, kind, seed):
    rng = random.Random(int(seed))
    tot = 0
    for root, _, files in os.walk(src):
        for fn in files:
            if not fn.endswith(".py"):
                continue
            p = os.path.join(root, fn)
            q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            t = ast.parse(open(p).read())
            tr = KINDS[kind](rng)
            t = tr.visit(t)
            if kind == "extract" and tr.new:
                t.body.extend(tr.new)
            ast.fix_missing_locations(t)
            open(q, "w").write(ast.unparse(t))
            compile(open(q).read(), q, "exec")
            tot += tr.n
    return tot


if __name__ == "__main__":
    print(main(*sys.argv[1:5]))
