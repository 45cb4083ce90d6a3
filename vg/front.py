"""AST -> gated value graph.  The program is never executed: control-flow joins become gate (ite) nodes,
loops with a trip count that is not a literal are summarised (sum / map / last / fold nodes)."""
from __future__ import annotations
import ast
import builtins
import sys
from . import core, simp
from .core import mk, const, tup, lst, ite, and_, or_, not_, truth_const, TRUE, FALSE, NONEN, is_int, cval, fresh, subst, is_num
from .repo import Repo, MUTATORS, ann_sort

UNROLL = 8


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("frames", "store", "heap", "pc")

    def __init__(self):
        self.frames, self.store, self.heap, self.pc = {}, {}, {}, TRUE

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.pc = self.pc
        return s


class Clo:
    def __init__(self, node, fid, mod, cls):
        self.node, self.fid, self.mod, self.cls = node, fid, mod, cls


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.MatMult: "@", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
          ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=",
          ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
UNOPS = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "~", ast.Not: "not"}

# array methods rewritten to their function form
METH2FN = {"sum", "mean", "max", "min", "flatten", "reshape", "toarray", "todense", "tocsc", "tocsr", "diagonal",
           "trace", "astype", "any", "all", "ravel", "transpose", "cumsum", "argmax", "argmin", "prod", "std", "var",
           "round", "clip", "tolist", "conj", "tocoo", "nonzero", "item", "argsort"}
IGNORED = {"print", "warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings"}
SIGS = {
    "np.sum": ["a", "axis"], "np.mean": ["a", "axis"], "np.max": ["a", "axis"], "np.min": ["a", "axis"],
    "np.any": ["a", "axis"], "np.all": ["a", "axis"], "np.concatenate": ["arrays", "axis"],
    "np.array": ["object", "dtype"], "np.zeros": ["shape", "dtype"], "np.ones": ["shape", "dtype"],
    "np.power": ["x1", "x2"], "np.reshape": ["a", "shape"], "np.diag": ["v", "k"], "np.linspace": ["start", "stop", "num"],
    "np.delete": ["arr", "obj", "axis"], "np.repeat": ["a", "repeats", "axis"], "np.split": ["ary", "indices_or_sections", "axis"],
    "np.unique": ["ar"], "np.isnan": ["x"], "np.isinf": ["x"], "np.log": ["x"], "np.exp": ["x"], "np.sqrt": ["x"],
    "np.where": ["condition", "x", "y"], "np.clip": ["a", "a_min", "a_max"], "np.full": ["shape", "fill_value"],
    "np.round": ["a", "decimals"], "np.tile": ["A", "reps"],
    "scp.special.polygamma": ["n", "x"],
}
for _d, _ps in {"norm": ["loc", "scale"], "gamma": ["a", "loc", "scale"], "beta": ["a", "b", "loc", "scale"], "t": ["df", "loc", "scale"], "f": ["dfn", "dfd"],
                "chi2": ["df", "loc", "scale"], "poisson": ["mu", "loc"], "binom": ["n", "p", "loc"], "invgauss": ["mu", "loc", "scale"],
                "expon": ["loc", "scale"], "uniform": ["loc", "scale"]}.items():
    for _m, _x in {"logpdf": "x", "pdf": "x", "logcdf": "x", "cdf": "x", "logpmf": "k", "pmf": "k", "ppf": "q", "sf": "x", "logsf": "x"}.items():
        SIGS[f"scp.stats.{_d}.{_m}"] = [_x] + _ps
    SIGS[f"scp.stats.{_d}.rvs"] = _ps + (["loc", "scale"] if "loc" not in _ps else []) + ["size", "random_state"]
LIBALIAS = {"np.matmul": "@", "np.dot": "@", "np.multiply": "*", "np.add": "+", "np.subtract": "-", "np.divide": "/",
            "np.true_divide": "/", "np.power": "**", "np.pow": "**", "np.float_power": "**", "np.logical_and": "&",
            "np.logical_or": "|", "math.pow": "**"}
FNALIAS = {"math.log": "np.log", "math.exp": "np.exp", "math.sqrt": "np.sqrt", "math.pi": "np.pi", "np.amax": "np.max",
           "np.amin": "np.min", "np.absolute": "np.abs", "abs": "np.abs", "math.fabs": "np.abs", "scp.special.loggamma": "scp.special.gammaln",
           "math.lgamma": "scp.special.gammaln", "scp.special.psi": "scp.special.digamma", "np.logical_not": "~",
           "math.isnan": "np.isnan", "math.isinf": "np.isinf", "math.isfinite": "np.isfinite", "math.inf": "np.inf", "math.nan": "np.nan",
           "scp.linalg.inv": "np.linalg.inv", "np.asarray": "np.array", "np.ascontiguousarray": "np.array", "np.eye": "np.identity",
           "mp.Pool": "mp.Pool"}
REDUCERS = {"np.sum", "sum"}


class Policy:
    """Which repository functions stay calls (modular) and which are inlined."""

    def __init__(self, modular=None, inline=None, depth=14, budget=40000, unroll=0):
        self.modular = modular      # set of quals kept as calls, or None = all functions of the repo are modular
        self.inline = inline or set()
        self.depth, self.budget, self.unroll = depth, budget, unroll

    def keep(self, qual):
        if qual in self.inline:
            return False
        if self.modular is None:
            return True
        return qual in self.modular


class Builder:
    prints = False
    zipped = ()

    def __init__(self, repo: Repo, policy: Policy, reads=None, defaults_from=None):
        self.repo, self.pol = repo, policy
        self.origin = {}
        self.clos = {}
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.copies = {}
        self.raises = []
        self.rngs = set()
        self.reads = reads or {}
        self.calls_seen = set()
        self.inlined = set()
        self.idx_ctx = []
        self.asorts = core.ASORTS

    # ---- store helpers ------------------------------------------------
    def newloc(self, st, val):
        k = ("l", fresh())
        st.store[k] = val
        return mk("loc", (), k)

    def raw(self, n, st):
        while n.op == "loc":
            n = st.store[n.attr]
        return n

    def V(self, n, st, seen=()):
        if n.op == "loc":
            n = st.store[n.attr]
            return self.V(n, st, seen)
        if not n.dirty:
            return n
        memo = {}

        def go(x, seen):
            if not x.dirty:
                return x
            key = x.id
            if key in memo:
                return memo[key]
            if x.op == "loc":
                if x.attr in seen:
                    return mk("cyc", ())
                r = go(st.store[x.attr], seen + (x.attr,))
            elif x.op == "inst":
                if x.attr in seen:
                    return mk("cyc", ())
                r = self.freeze_inst(x, st, seen, go)
            elif x.op == "clo":
                r = self.reify(x, st)
            elif x.op == "bm":
                r = mk("bmf", (go(x.args[0], seen),), x.attr.split(".")[-1])
            elif x.op == "supr":
                r = mk("supr_", ())
            else:
                r = core.rebuild(x, [go(a, seen) for a in x.args])
            memo[key] = r
            return r

        return go(n, seen)

    def freeze_inst(self, x, st, seen, go):
        cls, iid = x.attr
        items = []
        for k, v in st.store.items():
            if k[0] == "i" and k[1] == iid:
                fv = go(v, seen + (x.attr,))
                if fv.op == "sym" and fv.attr[0] == f"self.{k[2]}":
                    continue
                items.append((k[2], fv))
        items.sort(key=lambda t: t[0])
        if not items and (iid in self.self_ids):
            return mk("sym", (), (f"self", None))
        return mk("obj", [v for _, v in items], (cls.split(".")[-1], tuple(k for k, _ in items)))

    self_ids = ()

    def reify(self, x, st):
        clo = self.clos[x.attr]
        if self.depth > self.pol.depth or clo in self.stack:
            return mk("opaque_clo", ())
        f = clo.node
        ids = []
        args = []
        a = f.args
        for p in a.posonlyargs + a.args:
            i = fresh()
            ids.append(i)
            args.append(mk("idx", (), i))
        try:
            r = self.call_closure(clo, args, [], st.fork(), reify=True)
            body = r
        except Unsupported:
            body = mk("opaque_clo", ())
        return mk("lam", (body,), (tuple(ids),))

    # ---- state joins ----------------------------------------------------
    def join(self, c, a: State, b: State):
        t = truth_const(c)
        if t is True:
            return a
        if t is False:
            return b
        r = State()
        r.pc = a.pc if a.pc is b.pc else TRUE
        ks = {**a.store, **b.store}
        for k in ks:
            x, y = a.store.get(k), b.store.get(k)
            if x is y or y is None:
                r.store[k] = x
            elif x is None:
                r.store[k] = y
            else:
                vx, vy = self.V(x, a), self.V(y, b)
                if x.dirty and y.dirty and x.op == y.op == "list" and len(x.args) == len(y.args) and all(p.op == q.op for p, q in zip(x.args, y.args)) and x is y:
                    r.store[k] = x
                else:
                    r.store[k] = x if vx is vy else ite(c, vx, vy)
        for h in {**a.heap, **b.heap}:
            x = a.heap.get(h) or self.heap0(h)
            y = b.heap.get(h) or self.heap0(h)
            r.heap[h] = ite(c, x, y)
        for fid in {**a.frames, **b.frames}:
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                r.frames[fid] = dict(fa if fb is None else fb)
                continue
            fr = {}
            for v in {**fa, **fb}:
                x, y = fa.get(v), fb.get(v)
                if x is y:
                    fr[v] = x
                    continue
                if x is None or y is None:
                    u = mk("sym", (), ("undef", None))
                    vx = u if x is None else self.V(x, a)
                    vy = u if y is None else self.V(y, b)
                    fr[v] = self.newloc(r, ite(c, vx, vy))
                    continue
                vx, vy = self.V(x, a), self.V(y, b)
                if vx is vy and x.op != "loc":
                    fr[v] = x
                else:
                    loc = self.newloc(r, ite(c, vx, vy))
                    fr[v] = loc
            r.frames[fid] = fr
        return r

    def chain(self, outs):
        """outs: ordered [(guard, state)], last is default -> merged state"""
        acc = outs[-1][1]
        for g, s in reversed(outs[:-1]):
            acc = self.join(g, s, acc)
        return acc

    def heap0(self, name):
        return mk("heap0", (), name)

    # ---- function entry ---------------------------------------------------
    def analyze(self, qual, presets=None, argvals=None, cls=None):
        """Return dict of outputs (name -> Node)."""
        sys.setrecursionlimit(200000)
        self.zipped = []
        self.prints = qual.split(".")[-1].startswith("print_")
        f = self.repo.funcs[qual]
        mod, c = self.repo.owner[qual]
        if cls is not None:
            c2 = cls
        else:
            c2 = c
        st = State()
        fid = fresh()
        st.frames[fid] = {}
        presets = presets or {}
        argvals = argvals or {}
        a = f.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        inst = None
        for p in params:
            if p.arg == "self" and c is not None and p is params[0]:
                iid = fresh()
                self.self_ids = (iid,)
                inst = mk("inst", (), (c2.qual, iid))
                st.frames[fid]["self"] = inst
                for k, v in presets.items():
                    st.store[("i", iid, k)] = v if v.dirty or v.op in ("const", "enum") else self.newloc(st, v)
                continue
            if p.arg in argvals:
                v = argvals[p.arg]
                st.frames[fid][p.arg] = v if v.op in ("const", "enum") else self.newloc(st, v)
            else:
                st.frames[fid][p.arg] = self.newloc(st, mk("sym", (), (p.arg, ann_sort(p.annotation))))
        for va in (a.vararg, a.kwarg):
            if va:
                if va.arg in argvals:
                    st.frames[fid][va.arg] = self.newloc(st, argvals[va.arg])
                else:
                    st.frames[fid][va.arg] = self.newloc(st, mk("sym", (), (va.arg, "list")))
        entry = {p: n for p, n in st.frames[fid].items()}
        entry_vals = {p: self.V(n, st) for p, n in entry.items() if n.op == "loc"}
        self.mod, self.cls, self.fid = mod, c, fid
        ret, st2 = self.run_body(f, st, fid, mod, c)
        outs = {"ret": self.V(ret, st2)}
        for p, n in entry.items():
            if n.op == "loc":
                v = self.V(n, st2)
                if v is not entry_vals[p]:
                    outs[f"mut:{p}"] = v
        if inst is not None:
            iid = inst.attr[1]
            for k, v in st2.store.items():
                if k[0] == "i" and k[1] == iid:
                    fv = self.V(v, st2)
                    if fv.op == "sym" and fv.attr[0] == f"self.{k[2]}":
                        continue
                    if k[2] in presets and fv is self.V(presets[k[2]], st2) and not presets[k[2]].dirty:
                        continue
                    outs[f"self.{k[2]}"] = fv
        for h, v in st2.heap.items():
            if v is not self.heap0(h):
                outs[f"heap:{h}"] = v
        exc = {}
        for g, name in self.raises:
            if not g.free and not g.dirty:
                exc[name] = or_(exc.get(name, FALSE), g)
        for n, g in exc.items():
            outs[f"raise:{n}"] = g
        return outs

    def run_body(self, f, st, fid, mod, cls):
        saved = (getattr(self, "mod", None), getattr(self, "cls", None), getattr(self, "fid", None))
        self.mod, self.cls, self.fid = mod, cls, fid
        try:
            s, g, outs = self.block(f.body, st)
        finally:
            self.mod, self.cls, self.fid = saved
        rets = [(gg, s2, v) for (k, gg, s2, v) in outs if k == "ret"]
        if s is not None:
            rets.append((TRUE, s, NONEN))
        if not rets:
            # always raises
            return mk("bottom", ()), st
        if len(rets) == 1:
            return rets[0][2], rets[0][1]
        # merge
        same = all(r[2] is rets[0][2] for r in rets)
        val = None
        if same:
            val = rets[0][2]
        elif all(r[2].op == "tuple" for r in rets) and len({len(r[2].args) for r in rets}) == 1:
            k = len(rets[0][2].args)
            comps = []
            for j in range(k):
                acc = self.V(rets[-1][2].args[j], rets[-1][1])
                for gg, s2, v in reversed(rets[:-1]):
                    acc = ite(gg, self.V(v.args[j], s2), acc)
                comps.append(acc)
            val = tup(comps)
        else:
            acc = self.V(rets[-1][2], rets[-1][1])
            for gg, s2, v in reversed(rets[:-1]):
                acc = ite(gg, self.V(v, s2), acc)
            val = acc
        stf = self.chain([(gg, s2) for gg, s2, _ in rets])
        return val, stf

    # ---- statements ---------------------------------------------------------
    def block(self, stmts, st):
        outs = []
        g = TRUE
        for s in stmts:
            self.steps += 1
            if self.steps > self.pol.budget:
                raise Budget()
            core.cur_line[0] = getattr(s, "lineno", 0) if self.depth == 0 else core.cur_line[0]
            st, g2, o = self.stmt(s, st)
            outs += o
            if st is None:
                return None, FALSE, outs
            g = and_(g, g2)
        return st, g, outs

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        r = m(s, st)
        if r is None:
            return st, TRUE, []
        return r

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        v = s.value
        # d.setdefault(k, []).append(x): the entry is created or extended
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and len(v.args) == 1 and isinstance(v.func.value, ast.Call):
            w = v.func.value
            if isinstance(w.func, ast.Attribute) and w.func.attr == "setdefault" and len(w.args) == 2 and isinstance(w.args[1], ast.List) and not w.args[1].elts:
                d, k = ast.unparse(w.func.value), ast.unparse(w.args[0])
                t = ast.parse(f"if {k} in {d}:\n    {d}[{k}].append({ast.unparse(v.args[0])})\nelse:\n    {d}[{k}] = [{ast.unparse(v.args[0])}]").body[0]
                for q in ast.walk(t):
                    if hasattr(q, "lineno"):
                        q.lineno = s.lineno
                return self.stmt(t, st)
        self.E(s.value, st)

    def s_Pass(self, s, st):
        return None

    def s_Import(self, s, st):
        for a in s.names:
            st.frames[self.fid][a.asname or a.name.split(".")[0]] = mk("lib", (), a.name)

    s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, s, st):
        for a in s.names:
            last = (s.module or "").split(".")[-1]
            if last in self.repo.mods:
                r = self.repo.resolve(self.repo.mods[last], a.name)
                n = self.from_res(r, a.name)
            else:
                n = mk("lib", (), f"{s.module}.{a.name}")
            st.frames[self.fid][a.asname or a.name] = n

    def s_ClassDef(self, s, st):
        st.frames[self.fid][s.name] = mk("sym", (), (f"localclass.{s.name}", None))

    def s_FunctionDef(self, s, st):
        k = fresh()
        self.clos[k] = Clo(s, self.fid, self.mod, self.cls)
        st.frames[self.fid][s.name] = mk("clo", (), k)

    def s_Assert(self, s, st):
        return None

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[self.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.E(t.value, st)
                i = self.V(self.E(t.slice, st), st)
                self.update_place(t.value, b, mk("del", (self.V(b, st), i)), st)

    def s_Return(self, s, st):
        v = NONEN if s.value is None else self.E(s.value, st)
        return None, FALSE, [("ret", TRUE, st, v)]

    def s_Raise(self, s, st):
        nm = "Exception"
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(x)
        if not getattr(self, "in_try", 0):
            self.raises.append((st.pc, nm))
        return None, FALSE, [("raise", TRUE, st, const(nm))]

    def s_Break(self, s, st):
        return None, FALSE, [("brk", TRUE, st, NONEN)]

    def s_Continue(self, s, st):
        return None, FALSE, [("cont", TRUE, st, NONEN)]

    def s_Assign(self, s, st):
        v = self.E(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s.value)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.E(s.value, st), st, s.value)

    def is_alias_expr(self, e):
        return isinstance(e, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred))

    def assign(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            if v.op in ("loc", "inst", "clo", "fref", "cref", "lib", "bm", "const", "enum", "mref"):
                st.frames[self.fid][t.id] = v
            else:
                loc = self.newloc(st, v)
                # remember where an element/attribute alias came from so that in-place updates write through
                if isinstance(src, ast.Subscript) and self.origin_ok(src):
                    self.origin[loc.attr] = ("sub", src, self.fid)
                elif isinstance(src, ast.Attribute):
                    self.origin[loc.attr] = ("attr", src, self.fid)
                st.frames[self.fid][t.id] = loc
        elif isinstance(t, (ast.Tuple, ast.List)):
            r = self.raw(v, st)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if r.op in ("tuple", "list") and not any(x.op == "star" for x in r.args) and not star and len(r.args) == len(t.elts):
                for x, y in zip(t.elts, r.args):
                    self.assign(x, y, st)
                return
            if r.op == "unzip" and not star:
                for i, x in enumerate(t.elts):
                    self.assign(x, self.column(r, i, st), st)
                return
            vv = self.V(v, st)
            if star:
                k = star[0]
                n = len(t.elts)
                for i, x in enumerate(t.elts):
                    if i < k:
                        self.assign(x, simp.getitem(vv, const(i)), st)
                    elif i == k:
                        hi = NONEN if n - 1 - k == 0 else const(-(n - 1 - k))
                        self.assign(x.value, simp.getitem(vv, mk("slice", (const(k), hi, NONEN))), st)
                    else:
                        self.assign(x, simp.getitem(vv, const(i - n)), st)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, simp.getitem(vv, const(i)), st)
        elif isinstance(t, ast.Attribute):
            o = self.E(t.value, st)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.E(t.value, st)
            i = self.V(self.E(t.slice, st), st)
            content = self.raw(b, st)
            if content.op in ("list", "dict") and v.op in ("loc", "inst"):
                new = simp.store(content, i, v)
            else:
                new = simp.store(content if not content.dirty or content.op in ("list", "dict") else self.V(content, st), i, self.V(v, st))
                if new.op == "store" and new.dirty:
                    new = self.V(new, st)
            self.update_place(t.value, b, new, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported("target")

    def column(self, r, i, st):
        """zip(*rows)[i]"""
        rows = self.V(r.args[0], st)
        d = self.domain(rows, st)
        if d[0] == "known":
            return mk("tuple", [simp.getitem(x, const(i)) for x in d[1]])
        if self.pol.unroll:
            acc = lst([])
            for j in range(self.trips(d)):
                c = self.V(self.gate(d, j), st)
                if truth_const(c) is False:
                    break
                acc = simp.cat(acc, ite(c, lst([simp.getitem(self.V(d[2](const(j)), st), const(i))]), lst([])))
            return acc
        L = fresh()
        return close_map(L, self.V(d[1], st), lst([simp.getitem(self.V(d[2](mk("idx", (), L)), st), const(i))]))

    def origin_ok(self, src):
        s = src.slice
        if isinstance(s, (ast.Compare, ast.BoolOp)):
            return False
        return True

    def update_place(self, expr, b, new, st):
        """the object denoted by expr (value node b) now has content `new`"""
        if b.op == "loc":
            st.store[b.attr] = new
            o = self.origin.get(b.attr)
            if o is not None and o[2] in st.frames:
                kind, src, fid = o
                sv = self.fid
                self.fid = fid
                try:
                    if kind == "sub":
                        base = self.E(src.value, st)
                        idx = self.V(self.E(src.slice, st), st)
                        c = self.raw(base, st)
                        if c.op in ("list", "tuple", "map", "cat", "store", "sym", "carry", "getitem", "sel", "call", "ite"):
                            self.update_place(src.value, base, simp.store(self.V(c, st), idx, self.V(new, st)), st)
                    else:
                        base = self.E(src.value, st)
                        if base.op != "lib":
                            self.set_attr(base, src.attr, b if base.op == "inst" else self.V(new, st), st)
                finally:
                    self.fid = sv
            return
        if isinstance(expr, ast.Name):
            st.frames[self.fid][expr.id] = self.newloc(st, new)
        elif isinstance(expr, ast.Attribute):
            base = self.E(expr.value, st)
            self.set_attr(base, expr.attr, new, st)
        elif isinstance(expr, ast.Subscript):
            base = self.E(expr.value, st)
            idx = self.V(self.E(expr.slice, st), st)
            c = self.raw(base, st)
            self.update_place(expr.value, base, simp.store(self.V(c, st), idx, self.V(new, st)), st)
        # calls etc: temporary object, nothing to do

    def set_attr(self, o, name, v, st):
        if o.op == "loc":
            r = self.raw(o, st)
            if r.op in ("inst", "loc"):
                o = r
        if o.op == "inst":
            k = ("i", o.attr[1], name)
            if v.op in ("loc", "inst", "clo", "fref", "cref", "const", "enum", "lib", "bm"):
                st.store[k] = v
            else:
                st.store[k] = self.newloc(st, v)
            return
        ov = self.V(o, st)
        h = st.heap.get(name) or self.heap0(name)
        st.heap[name] = mk("hstore", (h, ov, self.V(v, st)), name)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        rhs = self.E(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            cr = self.raw(cur, st)
            rr = self.raw(rhs, st)
            if op == "+" and (simp.is_listy(cr) or simp.is_listy(rr)) and cr.op not in ("const",):
                new = simp.cat(cr if simp.is_listy(cr) or cr.dirty else self.V(cr, st), rr)
                inplace = simp.is_listy(cr) or self.sortof(cr) == "list"
            else:
                new = simp.binop(op, self.V(cur, st), self.V(rhs, st))
                srt = self.sortof(self.V(cur, st))
                inplace = srt == "array" or srt == "sparse" and op in ("*", "/")      # adding to a sparse matrix makes a new one
            if cur.op == "loc" and inplace:
                self.update_place(t, cur, new, st)
            else:
                st.frames[self.fid][t.id] = new if new.op == "const" else self.newloc(st, new)
        elif isinstance(t, ast.Attribute):
            o = self.E(t.value, st)
            cur = self.get_attr(o, t.attr, st)
            self.set_attr(o, t.attr, self.aug(op, cur, rhs, st), st)
        elif isinstance(t, ast.Subscript):
            b = self.E(t.value, st)
            i = self.V(self.E(t.slice, st), st)
            cur = simp.getitem(self.raw(b, st) if not self.raw(b, st).dirty or self.raw(b, st).op in ("list", "dict") else self.V(b, st), i)
            new = self.aug(op, cur, rhs, st)
            c = self.raw(b, st)
            r = simp.store(c, i, new)
            if r.op == "store" and r.dirty:
                r = self.V(r, st)
            self.update_place(t.value, b, r, st)

    def aug(self, op, cur, rhs, st):
        cr, rr = self.raw(cur, st), self.raw(rhs, st)
        if op == "+" and (simp.is_listy(cr) or simp.is_listy(rr)):
            return simp.cat(self.V(cr, st), self.V(rr, st))
        return simp.binop(op, self.V(cur, st), self.V(rhs, st))

    def sortof(self, n):
        k = _sorts.get(n.id, 0)
        if k == 0:
            k = _sorts[n.id] = self.sortof0(n)
        return k

    def sortof0(self, n):
        if n.op == "sym":
            return n.attr[1]
        if n.op == "sel":
            return self.asorts.get(n.attr)
        if n.op == "rcall" and n.attr[0] in self.repo.funcs:
            a = self.repo.funcs[n.attr[0]].returns
            return "dict" if a is not None and ast.unparse(a).split("[")[0] in ("dict",) and "|" not in ast.unparse(a) else None
        if n.op == "call":
            nm = n.attr[0]
            if nm in ("np.zeros", "np.ones", "np.array", "np.zeros_like", "np.ones_like", "np.identity", "np.concatenate", "np.copy", "np.full"):
                return "array"
            if nm in ("np.reshape", "np.flatten"):
                return "array" if self.sortof(n.args[0]) in ("array", None) else None
            if nm in ("list", "sorted"):
                return "list"
        if n.op == "bin":
            if n.attr == "@":
                return None
            s = [self.sortof(a) for a in n.args]
            if "array" in s:
                return "array"
        if n.op in ("store",):
            return self.sortof(n.args[0])
        if n.op == "copy":
            return self.sortof(n.args[0])
        if n.op == "ite":
            a, b = self.sortof(n.args[1]), self.sortof(n.args[2])
            return a if a == b else None
        if simp.is_listy(n):
            return "list"
        return None

    def s_If(self, s, st):
        c = self.C(s.test, st)
        t = truth_const(c)
        if t is True:
            return self.block(s.body, st)
        if t is False:
            return self.block(s.orelse, st)
        a = st.fork()
        b = st
        pc0 = st.pc
        a.pc = and_(pc0, c)
        b.pc = and_(pc0, not_(c))
        return self.branches(c, pc0, self.block(s.body, a), self.block(s.orelse, b))

    def branches(self, c, pc0, r1, r2):
        s1, g1, o1 = r1
        s2, g2, o2 = r2
        nc = not_(c)
        outs = [(k, and_(c, g), x, v) for k, g, x, v in o1] + [(k, and_(nc, g), x, v) for k, g, x, v in o2]
        if s1 is None and s2 is None:
            return None, FALSE, outs
        if s1 is None:
            return s2, g2 if not o1 else and_(nc, g2), outs
        if s2 is None:
            return s1, and_(c, g1), outs
        j = self.join(c, s1, s2)
        j.pc = pc0 if not outs else or_(s1.pc, s2.pc)
        g = TRUE if g1 is TRUE and g2 is TRUE else or_(and_(c, g1), and_(nc, g2))
        return j, g, outs

    def s_With(self, s, st):
        for it in s.items:
            v = self.E(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.fork()
        self.in_try = getattr(self, "in_try", 0) + 1
        log0, self.rlog = getattr(self, "rlog", None), []
        mark = fresh()
        try:
            s1, g1, o1 = self.block(s.body, st)
        finally:
            self.in_try -= 1
            made = self.rlog
            self.rlog = log0 if log0 is None else log0 + made
        o1x = [o for o in o1 if o[0] != "raise"]
        if not hasattr(self, "tries"):
            self.tries = {}
        k = self.tries.setdefault(id(s), len(self.tries))
        atom = mk("exc", sorted({x for x in made if not any(f > mark for f in x.free)}, key=lambda x: x.id), k)
        outs = []
        hstates = []
        for h in s.handlers:
            hs = pre.fork()
            # effects of the body may or may not have happened: keep body values under a gate-free choice of the pre-state
            if h.name:
                hs.frames[self.fid][h.name] = mk("sym", (), ("exception", None))
            x, g, o = self.block(h.body, hs)
            outs += [(k, and_(atom, gg), y, v) for k, gg, y, v in o]
            if x is not None:
                hstates.append(x)
        outs += o1x
        cur = s1
        for x in hstates:
            cur = x if cur is None else self.join(atom, x, cur)
        if cur is None:
            if s.finalbody:
                self.block(s.finalbody, pre)
            return None, FALSE, outs
        if s.orelse:
            cur, _, o = self.block(s.orelse, cur)
            outs += o
            if cur is None:
                return None, FALSE, outs
        if s.finalbody:
            cur, _, o = self.block(s.finalbody, cur)
            outs += o
        return cur, TRUE, outs

    # ---- loops ------------------------------------------------------------------
    def domain(self, n, st):
        """('known', [nodes]) or ('sym', length, fn idx->node)"""
        r = self.raw(n, st)
        if r.op in ("list", "tuple") and not any(x.op == "star" for x in r.args):
            if len(r.args) <= UNROLL or True:
                return ("known", list(r.args))
        if r.op == "rcall":
            k = self.repo.tuple_len(r.attr[0])
            if k:
                return ("known", [simp.getitem(r, const(i)) for i in range(k)])
        if r.op == "range":
            if all(is_int(q) for q in r.args):
                rr = range(*[cval(q) for q in r.args])
                if len(rr) <= UNROLL:
                    return ("known", [const(k) for k in rr])
            gt = None
            if is_int(r.args[2]) and cval(r.args[2]) == 1:
                gt = lambda k: simp.cmp("<", simp.getitem(r, const(k)), r.args[1])
            elif is_int(r.args[2]) and cval(r.args[2]) == -1:
                gt = lambda k: simp.cmp(">", simp.getitem(r, const(k)), r.args[1])
            return ("sym", simp.length(r), lambda i: simp.getitem(r, i), gt)
        if r.op == "call" and r.attr[0] == "np.arange" and not r.attr[1] and 1 <= len(r.args) <= 3:
            a = list(r.args)
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            return self.domain(mk("range", a), st)
        if r.op == "enumerate":
            d = self.domain(r.args[0], st)
            s0 = r.args[1]
            if d[0] == "known":
                return ("known", [tup([simp.binop("+", const(k), s0), x]) for k, x in enumerate(d[1])])
            return ("sym", d[1], lambda i: tup([simp.binop("+", i, s0), d[2](i)]), d[3] if len(d) > 3 else None)
        if r.op == "zip":
            ds = [self.domain(x, st) if self.raw(x, st).op != "repeat" else ("rep", self.raw(x, st).args[0]) for x in r.args]
            kn = [d for d in ds if d[0] == "known"]
            if kn:
                k = min(len(d[1]) for d in kn)
                out = []
                for j in range(k):
                    row = []
                    for d in ds:
                        row.append(d[1][j] if d[0] == "known" else d[1] if d[0] == "rep" else d[2](const(j)))
                    out.append(tup(row))
                return ("known", out)
            sy = [d for d in ds if d[0] == "sym"]
            for d in sy[1:]:
                self.zipped.append((self.V(sy[0][1], st), self.V(d[1], st)))
            if not sy:
                return ("sym", const(1), lambda i: tup([d[1] for d in ds]))
            return ("sym", sy[0][1], lambda i: tup([d[1] if d[0] == "rep" else d[2](i) for d in ds]), sy[0][3] if len(sy[0]) > 3 else None)
        if r.op == "reversed":
            d = self.domain(r.args[0], st)
            if d[0] == "known":
                return ("known", d[1][::-1])
            n1 = d[1]
            return ("sym", n1, lambda i: d[2](simp.binop("-", simp.binop("-", n1, const(1)), i)))
        if r.op == "dict":
            return ("known", list(r.attr))
        if r.op == "items" and r.args[0].op == "dict":
            dd = r.args[0]
            return ("known", [tup([k, v]) for k, v in zip(dd.attr, dd.args)])
        if r.op == "map" and len(r.args) == 2:
            return ("sym", r.args[0], lambda i: simp.inst_bound(r.args[1], r.attr[0], i))
        if r.op == "const" and r.attr[0] == "str" and len(cval(r)) <= UNROLL:
            return ("known", [const(ch) for ch in cval(r)])
        if r.op == "call" and r.attr[0].endswith("tqdm") and r.args:
            return self.domain(r.args[0], st)
        v = self.V(n, st)
        if v.op == "call" and v.attr in (("list", ()), ("tuple", ()), ("iter", ())) and len(v.args) == 1:
            v = v.args[0]
        if v.op == "getitem" and v.args[1].op == "slice":
            lo, hi, sp = v.args[1].args
            if is_int(lo) and cval(lo) > 0 and hi is NONEN and sp is NONEN:
                b, k0 = v.args[0], cval(lo)
                n0 = simp.length(b)
                return ("sym", simp.binop("-", n0, lo), lambda i: simp.getitem(b, simp.binop("+", i, lo)), lambda k: simp.cmp("<", const(k + k0), n0))
            hi = v.args[1].args[1]
            if lo is NONEN and v.args[1].args[2] is NONEN and (hi.op in ("len",) or hi.op in ("sym", "sel") and self.sortof(hi) in ("int", None) and hi is not NONEN):
                # the first n of x, where x has that many
                b = v.args[0]
                return ("sym", hi, lambda i: simp.getitem(b, i))
        if v.op == "cat":
            g = simp.gated(v)
            if g is not None:
                return ("sym", g[0], lambda i: simp.getitem(v, i), lambda k: g[1][k] if k < len(g[1]) else FALSE)
        if v.op == "mcall" and v.attr in (("items", ()), ("values", ()), ("keys", ())) and len(v.args) == 1:
            b = v.args[0]
            ks = mk("mcall", (b,), ("keys", ()))
            kind = v.attr[0]
            if kind == "keys":
                return ("sym", simp.length(b), lambda i: simp.getitem(ks, i))
            if kind == "values":
                return ("sym", simp.length(b), lambda i: simp.getitem(b, simp.getitem(ks, i)))
            return ("sym", simp.length(b), lambda i: tup([simp.getitem(ks, i), simp.getitem(b, simp.getitem(ks, i))]))
        if self.sortof(v) == "dict":
            ks = mk("mcall", (v,), ("keys", ()))
            return ("sym", simp.length(v), lambda i: simp.getitem(ks, i))
        return ("sym", simp.length(v), lambda i: simp.getitem(v, i))

    def either(self, it, st):
        """(condition, iterable, iterable) when what is iterated over is one of two things of which one is written out"""
        r = self.raw(it, st)
        w = lambda x: x
        if r.op == "enumerate":
            s0, r0 = r.args[1], self.raw(r.args[0], st)
            w, r = (lambda x: mk("enumerate", (x, s0))), r0
        if r.op == "call" and r.attr in (("list", ()), ("tuple", ())) and len(r.args) == 1:
            r = r.args[0]
        if r.op != "ite" or truth_const(r.args[0]) is not None:
            return None
        c, a, b = r.args
        if "known" in (self.domain(a, st)[0], self.domain(b, st)[0]):
            return c, w(a), w(b)
        return None

    def s_For(self, s, st):
        it = self.E(s.iter, st)
        e = self.either(it, st)
        if e is None:
            return self.for_over(s, it, st)
        c = e[0]
        a, b = st.fork(), st
        pc0 = st.pc
        a.pc, b.pc = and_(pc0, c), and_(pc0, not_(c))
        return self.branches(c, pc0, self.for_over(s, e[1], a), self.for_over(s, e[2], b))

    def for_over(self, s, it, st):
        d = self.domain(it, st)
        if d[0] == "known" and len(d[1]) <= 24:
            return self.unroll(s, d[1], st)
        if d[0] == "known":
            v = lst(d[1])
            v = self.V(v, st)
            d = ("sym", const(len(d[1])), lambda i: mk("getitem", (v, i)))
        if self.pol.unroll:
            return self.bounded(s, st, d)
        return self.loop(s, st, d)

    def counted(self, s):
        """while i < n: ...; i += 1  with i and n untouched in between -> (name, bound, body)"""
        t = s.test
        if s.orelse or not s.body or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not isinstance(l, ast.Name):
            return None
        last = s.body[-1]
        i = l.id
        ok = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i \
            and isinstance(last.value, ast.Constant) and last.value.value == 1
        if not ok and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.op, ast.Add):
            v = last.value
            x, y = (v.left, v.right) if isinstance(v.left, ast.Name) else (v.right, v.left)
            ok = isinstance(x, ast.Name) and x.id == i and isinstance(y, ast.Constant) and y.value == 1
        if not ok:
            return None
        body = s.body[:-1]
        stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if i in stored or stored & {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}:
            return None
        if any(isinstance(x, ast.Attribute) for x in ast.walk(r)):
            return None
        for x in ast.walk(r):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
        if isinstance(r, ast.Call):
            # len(v) : v must not be resized inside
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute) and x.attr in MUTATORS:
                        return None

        def has(b, kinds, depth=0):
            for x in ast.iter_child_nodes(b):
                if isinstance(x, kinds):
                    return True
                if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                    continue
                if has(x, kinds):
                    return True
            return False
        for b in body:
            if isinstance(b, (ast.Continue, ast.Break)) or has(b, (ast.Continue, ast.Break)):
                return None
        return i, r, body

    def s_While(self, s, st):
        c = self.counted(s)
        if c is not None:
            i, bound, body = c
            i0 = self.EV(ast.Name(i, ast.Load()), st)
            bv = self.EV(bound, st)
            f = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(ast.Name("range", ast.Load()), [ast.Name(i, ast.Load()), bound], []),
                        body=body or [ast.Pass()], orelse=[], lineno=s.lineno)
            r = self.s_For(f, st)
            if r is not None and r[0] is not None:
                fin = ite(simp.cmp("<", i0, bv), bv, i0)
                r[0].frames[self.fid][i] = fin if fin.op == "const" else self.newloc(r[0], fin)
            return r
        if self.pol.unroll:
            return self.bounded(s, st, None)
        return self.loop(s, st, None)

    def trips(self, d):
        """iterations to unroll: all sizes are taken to be at most the bound, so that n - a trips are unrolled a times less"""
        u = self.pol.unroll
        if d is None or u < 2:
            return u
        n = d[1]
        off = 0
        if n.op == "bin" and n.attr == "-" and is_int(n.args[1]):
            off = cval(n.args[1])
        return max(1, u - off) if 0 < off < u else u

    def limit(self, s, st):
        """(None, bound) of a while loop `i < bound`"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Name):
            return None, self.EV(t.comparators[0], st)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.BinOp):
            return None, self.EV(t.comparators[0], st)
        return None

    def gate(self, d, k):
        if len(d) > 3 and d[3] is not None:
            return d[3](k)
        return simp.cmp("<", const(k), d[1])

    def bounded(self, s, st, d):
        """bounded unrolling: every iteration under the gate that it is reached (used to compare restructured loops)"""
        outs, breaks = [], []
        cur = st
        for k in range(self.trips(d if d is not None else self.limit(s, st))):
            if d is None:
                c = self.C(s.test, cur)
            else:
                c = self.V(self.gate(d, k), cur)
            t = truth_const(c)
            if t is False:
                break
            a = cur.fork()
            pc0 = cur.pc
            a.pc = and_(pc0, c)
            if d is not None:
                self.assign(s.target, d[2](const(k)), a)
            nxt, g, o = self.block(s.body, a)
            conts = []
            for kind, gg, y, v in o:
                gg = and_(c, gg)
                if kind == "cont":
                    conts.append((gg, y))
                elif kind == "brk":
                    breaks.append((gg, y))
                else:
                    outs.append((kind, gg, y, v))
            seq = list(conts)
            if nxt is not None:
                if t is True:
                    seq.append((TRUE, nxt))
                else:
                    seq.append((and_(c, g), nxt))
            if not seq and t is True:
                cur = None
                break
            if t is True and nxt is not None:
                cur = self.chain(seq)
            else:
                cur = self.chain(seq + [(TRUE, cur)]) if seq else cur
            cur.pc = pc0
        if s.orelse and cur is not None:
            cur, _, o = self.block(s.orelse, cur)
            outs += o
        if breaks:
            cur = self.chain(breaks + ([(TRUE, cur)] if cur is not None else []))
        if cur is None:
            return None, FALSE, outs
        return cur, TRUE, outs

    def unroll(self, s, items, st):
        outs = []
        breaks = []
        cur = st
        for x in items:
            self.assign(s.target, x, cur)
            nxt, g, o = self.block(s.body, cur)
            conts = []
            for k, gg, y, v in o:
                if k == "cont":
                    conts.append((gg, y))
                elif k == "brk":
                    breaks.append((gg, y))
                else:
                    outs.append((k, gg, y, v))
            if conts:
                if nxt is None:
                    nxt = self.chain(conts)
                else:
                    nxt = self.chain(conts + [(TRUE, nxt)])
            if nxt is None:
                cur = None
                break
            cur = nxt
        if s.orelse and cur is not None:
            cur, _, o = self.block(s.orelse, cur)
            outs += o
        if breaks:
            cur = self.chain(breaks + ([(TRUE, cur)] if cur is not None else []))
        if cur is None:
            return None, FALSE, outs
        return cur, TRUE, outs

    def loop(self, s, st, d):
        L = fresh()          # idx id
        idx = mk("idx", (), L)
        n = d[1] if d else mk("const", (), ("NoneType", None))
        n = self.V(n, st)
        pre = st
        cvars, ckeys, cheap = [], [], []
        carries = {}

        def carry(name):
            if name not in carries:
                cid = fresh()
                carries[name] = mk("carry", (), (cid, str(name)))
                i = pre.frames[self.fid].get(name[1]) if name[0] == "v" else pre.store.get(name[1]) if name[0] == "k" else None
                if i is not None and is_rng(i, pre, self):
                    self.rngs.add(carries[name].id)
            return carries[name]

        nraises = len(self.raises)
        for rnd in range(7):
            b = pre.fork()
            fr = b.frames[self.fid]
            start_vals = {}
            for v in cvars:
                fr[v] = self.newloc(b, carry(("v", v)))
            for k in ckeys:
                b.store[k] = carry(("k", k))
            for h in cheap:
                b.heap[h] = carry(("h", h))
            snap_frame = dict(b.frames[self.fid])
            snap_store = dict(b.store)
            snap_heap = dict(b.heap)
            snap_other = {fid: dict(x) for fid, x in b.frames.items() if fid != self.fid}
            del self.raises[nraises:]
            brk = FALSE
            outs = []
            guard_c = TRUE
            if d is not None:
                self.assign(s.target, d[2](idx), b)
            else:
                guard_c = self.C(s.test, b)
            nxt, g, o = self.block(s.body, b)
            conts, brks, rets = [], [], []
            for k, gg, y, v in o:
                if k == "cont":
                    conts.append((gg, y))
                elif k == "brk":
                    brks.append((gg, y))
                elif k == "ret":
                    rets.append((gg, y, v))
            seq = []
            order = [(k, gg, y) for k, gg, y, v in o if k in ("cont", "brk")]
            chain = [(gg, y) for k, gg, y in order]
            if nxt is not None:
                chain.append((TRUE, nxt))
            if not chain:
                if rets:
                    chain = [(TRUE, rets[-1][1])]
                else:
                    chain = [(TRUE, b)]
            end = self.chain(chain)
            for gg, y in brks:
                brk = or_(brk, gg)
            if d is None:
                brk = or_(not_(guard_c), brk)
            # detect changes
            newv, newk, newh = [], [], []
            ef = end.frames[self.fid]
            for v, nn in ef.items():
                if v in cvars:
                    continue
                o0 = snap_frame.get(v)
                if o0 is nn:
                    continue
                if o0 is not None:
                    if self.V(nn, end) is self.V(o0, b if False else _St(snap_store, snap_frame)):
                        if nn.op != "loc" or o0.op == "loc":
                            continue
                newv.append(v)
            for k, x in snap_store.items():
                if k in pre.store and k not in ckeys and end.store.get(k) is not x:
                    if end.store.get(k) is not None and self.V(end.store[k], end) is self.V(x, _St(snap_store, snap_frame)):
                        continue
                    newk.append(k)
            for h, x in end.heap.items():
                if h not in cheap and (snap_heap.get(h) or self.heap0(h)) is not x:
                    newh.append(h)
            if not newv and not newk and not newh:
                break
            cvars += newv
            ckeys += newk
            cheap += newh
        else:
            raise Unsupported("loop fixpoint")
        # collect
        names, cs, inits, bodies, setters = [], [], [], [], []
        und = mk("sym", (), ("undef", None))
        locname = {}
        for v, nn in pre.frames[self.fid].items():
            if nn.op == "loc":
                locname.setdefault(nn.attr, v)
        for v in cvars:
            o0 = pre.frames[self.fid].get(v)
            names.append(v)
            cs.append(carry(("v", v)))
            inits.append(und if o0 is None else self.V(o0, pre))
            bodies.append(self.V(end.frames[self.fid][v], end))
            setters.append(("v", v))
        for k in ckeys:
            names.append(locname.get(k, str(k[-1]) if k[0] == "i" else "tmp"))
            cs.append(carry(("k", k)))
            inits.append(self.V(pre.store[k], pre))
            bodies.append(self.V(end.store[k], end))
            setters.append(("k", k))
        for h in cheap:
            names.append("." + h)
            cs.append(carry(("h", h)))
            inits.append(pre.heap.get(h) or self.heap0(h))
            bodies.append(end.heap[h])
            setters.append(("h", h))
        exc = {}
        for g, nm in self.raises[nraises:]:
            if not g.dirty:
                exc[nm] = or_(exc.get(nm, FALSE), g)
        del self.raises[nraises:]
        for nm, g in exc.items():
            if not (g.free & ({L} | {c.attr[0] for c in cs})):
                self.raises.append((g, nm))
                continue
            cid = fresh()
            c = mk("carry", (), (cid, "!" + nm))
            names.append("!" + nm)
            cs.append(c)
            inits.append(const(0))
            bodies.append(simp.binop("+", c, ite(g, const(1), const(0))))
            setters.append(("x", nm))
        retc, retv = FALSE, NONEN
        if rets:
            acc = NONEN
            for gg, y, v in reversed(rets):
                vv = self.V(v, y)
                acc = vv if acc is NONEN and len(rets) == 1 else ite(gg, vv, acc)
                retc = or_(gg, retc)
            retv = acc
        has_exit = brk is not FALSE or retc is not FALSE
        results, rc, rv = close_loop(L, idx, n, cs, names, inits, bodies, brk, retc, retv, has_exit, d is None)
        post = pre
        # locations that only exist because of the body are dropped; values are closed terms
        for (kind, key), val in zip(setters, results):
            if kind == "v":
                if val.op in ("const", "enum", "fref", "cref"):
                    post.frames[self.fid][key] = val
                else:
                    post.frames[self.fid][key] = self.newloc(post, val)
            elif kind == "k":
                post.store[key] = val
            elif kind == "x":
                self.raises.append((simp.cmp("!=", val, const(0)), key))
            else:
                post.heap[key] = val
        outl = []
        if rc is not None:
            outl.append(("ret", rc, post.fork(), rv))
        if s.orelse:
            p2, g2, o2 = self.block(s.orelse, post)
            return p2, g2, outl + o2
        return post, TRUE, outl

    # ---- expressions ------------------------------------------------------------------
    def C(self, e, st):
        """condition"""
        if isinstance(e, ast.BoolOp):
            vals = [self.C(x, st) for x in e.values]
            r = vals[0]
            for x in vals[1:]:
                r = and_(r, x) if isinstance(e.op, ast.And) else or_(r, x)
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.C(e.operand, st))
        v = self.E(e, st)
        r = self.raw(v, st)
        if r.op in ("inst", "clo", "fref", "cref", "bm", "lib"):
            return TRUE
        if r.op in ("list", "tuple", "dict") and not r.op == "dict":
            t = truth_const(r)
            if t is not None:
                return const(t)
        v = self.V(v, st)
        if v.op in ("map", "flat", "cat") or (v.op in ("sym", "sel") and self.asorts.get(v.attr if v.op == "sel" else v.attr[0].split(".")[-1]) == "list" and (v.op == "sel" or v.attr[0].startswith("self."))):
            v = simp.length(v)
        if simp.result_sort(v)[1] == "list":
            v = simp.length(v)
        if v.op == "len":
            return simp.cmp("!=", v, const(0))
        return v

    def E(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st)

    def EV(self, e, st):
        return self.V(self.E(e, st), st)

    def e_Constant(self, e, st):
        return const(e.value)

    def from_res(self, r, name):
        if r is None:
            return None
        if r[0] == "func":
            return mk("fref", (), r[1])
        if r[0] == "class":
            return mk("cref", (), r[1].qual)
        if r[0] == "lib":
            return mk("lib", (), r[1])
        if r[0] == "repomod":
            return mk("mref", (), r[1])
        if r[0] == "global":
            _, mod, nm = r
            ex = mod.globals[nm]
            if isinstance(ex, ast.Constant) and not multi_assigned(mod, nm):
                return const(ex.value)
            return mk("sym", (), (f"global.{nm}", None))
        return mk("lib", (), r[1])

    def lookup(self, name, st):
        fr = st.frames.get(self.fid, {})
        if name in fr:
            return fr[name]
        # enclosing frames of closures
        fid = self.parent.get(self.fid) if hasattr(self, "parent") else None
        while fid is not None:
            fr = st.frames.get(fid, {})
            if name in fr:
                return fr[name]
            fid = self.parent.get(fid)
        r = self.repo.resolve(self.mod, name)
        n = self.from_res(r, name)
        if n is not None:
            return n
        if not hasattr(builtins, name):
            return mk("sym", (), ("undef", None))
        return mk("lib", (), name)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_Attribute(self, e, st):
        o = self.E(e.value, st)
        return self.get_attr(o, e.attr, st)

    def cls_of(self, qual):
        m, c = qual.split(".")[0], qual.split(".")[1]
        return self.repo.mods[m].classes[c]

    def get_attr(self, o, name, st):
        if o.op == "loc":
            r = self.raw(o, st)
            if r.op in ("inst", "obj"):
                o = r
        if o.op == "lib":
            nm = f"{o.attr}.{name}"
            nm = FNALIAS.get(nm, nm)
            return mk("lib", (), nm)
        if o.op == "mref":
            return self.from_res(self.repo.resolve(self.repo.mods[o.attr], name), name) or mk("lib", (), f"{o.attr}.{name}")
        if o.op == "cref":
            c = self.cls_of(o.attr)
            if c.is_enum and name in c.attrs:
                return mk("enum", (), f"{c.name}.{name}")
            q = self.repo.method(c, name)
            if q:
                return mk("fref", (), q)
            if name in c.attrs:
                return mk("sym", (), (f"{c.name}.{name}", None))
            return mk("lib", (), f"{o.attr}.{name}")
        if o.op == "inst":
            k = ("i", o.attr[1], name)
            if k in st.store:
                return st.store[k]
            c = self.cls_of(o.attr[0])
            q = self.repo.method(c, name)
            if q:
                return mk("bm", (o,), q)
            for kk in self.repo.mro(c):
                if name in kk.attrs and o.attr[1] not in self.self_ids:
                    v = self.const_expr(kk.attrs[name], kk.mod, st)
                    st.store[k] = v
                    return v
            srt = self.asorts.get(name)
            loc = self.newloc(st, mk("sym", (), (f"self.{name}", srt)) if o.attr[1] in self.self_ids else mk("attr0", (mk("obj", (), (o.attr[0], ())),), name))
            st.store[k] = loc
            return loc
        if o.op == "supr":
            for kk in self.repo.mro(self.cls_of(o.args[0].attr[0]))[0:]:
                pass
            cur = self.cls
            for kk in self.repo.mro(cur)[1:]:
                if name in kk.methods:
                    return mk("bm", (o.args[0],), f"{kk.qual}.{name}")
            return mk("lib", (), f"object.{name}")
        v = self.V(o, st)
        if v.op == "obj":
            if name in v.attr[1]:
                return v.args[v.attr[1].index(name)]
        if name == "shape":
            return mk("shape", (v,))
        if name in ("T",):
            return mk("call", (v,), ("np.transpose", ()))
        if name in ("size", "dtype", "ndim", "nnz", "data", "indptr", "indices", "flat", "real"):
            return mk("aattr", (v,), name)
        h = st.heap.get(name) or self.heap0(name)
        # simple read-over-write
        hh = h
        while hh.op == "hstore" and hh.args[1] is not v and self.distinct(hh.args[1], v):
            hh = hh.args[0]
        if hh.op == "hstore" and hh.args[1] is v:
            return hh.args[2]
        if hh.op == "heap0":
            h = hh
        return mk("sel", (h, v), name)

    def distinct(self, a, b):
        if a.op == "getitem" and b.op == "getitem" and a.args[0] is b.args[0] and is_int(a.args[1]) and is_int(b.args[1]):
            return cval(a.args[1]) != cval(b.args[1])
        ra, rb = root(a), root(b)
        if ra is not rb and (ra.op == "copy" or rb.op == "copy"):
            return True
        return False

    def const_expr(self, ex, mod, st):
        if isinstance(ex, ast.Constant):
            return const(ex.value)
        sv = (self.mod, self.cls, self.fid)
        fid = fresh()
        st.frames[fid] = {}
        self.mod, self.fid = mod, fid
        try:
            v = self.E(ex, st)
        finally:
            self.mod, self.cls, self.fid = sv
            st.frames.pop(fid, None)
        return v

    def e_Subscript(self, e, st):
        b = self.E(e.value, st)
        i = self.EV(e.slice, st)
        r = self.raw(b, st)
        if r.op in ("list", "tuple", "dict"):
            x = simp.getitem(r, i)
            if x.op != "getitem":
                return x
        if r.op in ("cref", "lib"):
            return mk("lib", (), "type")
        return simp.getitem(self.V(b, st), i)

    def e_Slice(self, e, st):
        return mk("slice", [NONEN if x is None else self.EV(x, st) for x in (e.lower, e.upper, e.step)])

    def e_Index(self, e, st):
        return self.E(e.value, st)

    def e_Tuple(self, e, st):
        return self._seq("tuple", e, st)

    def e_List(self, e, st):
        return self._seq("list", e, st)

    def _seq(self, op, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.E(x.value, st)
                d = self.domain(v, st)
                if d[0] == "known":
                    items += d[1]
                else:
                    items.append(mk("star", (self.V(v, st),)))
            else:
                items.append(self.keep_raw(self.E(x, st)))
        if len(items) == 1 and items[0].op == "star" and op == "list":
            return mk("call", (items[0].args[0],), ("list", ())) if not simp.is_listy(items[0].args[0]) else items[0].args[0]
        if op == "list" and any(i.op == "star" for i in items):
            acc = lst([])
            for i in items:
                acc = simp.cat(acc, i.args[0] if i.op == "star" else lst([i]))
            return acc
        if op == "tuple" and len(items) > 1:
            # all results of one call, in order, are what the call returned
            rs = [self.raw(i, st) for i in items]
            if all(r.op == "getitem" and r.args[0].op == "rcall" and r.args[0] is rs[0].args[0] and r.args[1] is const(k) for k, r in enumerate(rs)) and self.repo.tuple_len(rs[0].args[0].attr[0]) == len(rs):
                return rs[0].args[0]
        return mk(op, items)

    def keep_raw(self, n):
        return n

    def e_Set(self, e, st):
        return mk("call", [self.EV(x, st) for x in e.elts], ("set_lit", ()))

    def e_Dict(self, e, st):
        ks, vs = [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                return mk("call", [self.EV(x, st) for x in e.values], ("dict_merge", ()))
            ks.append(self.EV(k, st))
            vs.append(self.E(v, st))
        if all(k.op in ("const", "enum") for k in ks):
            return mk("dict", vs, tuple(ks))
        return mk("call", [self.V(x, st) for p in zip(ks, vs) for x in p], ("dict", ()))

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.EV(x.value, st)
                sp = self.EV(x.format_spec, st) if x.format_spec is not None else None
                if x.conversion not in (-1, 115):
                    v = mk("call", (v,), ("repr", ()))
                parts.append(v if sp is None or sp.op == "const" and cval(sp) == "" else mk("call", (v, sp), ("format", ())))
        if all(p.op == "const" and p.attr[0] == "str" for p in parts):
            return const("".join(cval(p) for p in parts))
        return mk("fstr", parts)

    def str_format(self, fmt, args, kws, st):
        """'...{:.3e}...'.format(x) as the f-string it stands for"""
        import string
        parts, k = [], 0
        kw = dict(kws)
        for lit, name, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            if conv or "{" in (spec or ""):
                return None
            if name == "":
                v, k = (args[k] if k < len(args) else None), k + 1
            elif name.isdigit():
                v = args[int(name)] if int(name) < len(args) else None
            else:
                v = kw.get(name)
            if v is None or v.op == "star":
                return None
            v = self.V(v, st)
            parts.append(mk("call", (v, const(spec)), ("format", ())) if spec else v)
        return mk("fstr", parts)

    def e_FormattedValue(self, e, st):
        return self.E(e.value, st)

    def e_Starred(self, e, st):
        return mk("star", (self.EV(e.value, st),))

    def e_NamedExpr(self, e, st):
        v = self.E(e.value, st)
        self.assign(e.target, v, st, e.value)
        return v

    def e_Lambda(self, e, st):
        k = fresh()
        f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno)], decorator_list=[], lineno=e.lineno)
        self.clos[k] = Clo(f, self.fid, self.mod, self.cls)
        return mk("clo", (), k)

    def e_IfExp(self, e, st):
        c = self.C(e.test, st)
        t = truth_const(c)
        if t is True:
            return self.E(e.body, st)
        if t is False:
            return self.E(e.orelse, st)
        a, b = self.E(e.body, st), self.E(e.orelse, st)
        if a is b:
            return a
        return ite(c, self.V(a, st), self.V(b, st))

    def e_BoolOp(self, e, st):
        if all(isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)) for x in e.values):
            return self.C(e, st)
        vals = [self.EV(x, st) for x in e.values]
        r = vals[-1]
        for x in reversed(vals[:-1]):
            r = ite(x, r, x) if isinstance(e.op, ast.And) else ite(x, x, r)
            if False:
                pass
        # boolean-like operands: prefer and/or
        if all(boolish(v) for v in vals):
            r = vals[0]
            for x in vals[1:]:
                r = and_(r, x) if isinstance(e.op, ast.And) else or_(r, x)
        return r

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.C(e.operand, st))
        v = self.EV(e.operand, st)
        if isinstance(e.op, ast.USub):
            if core.is_num(v):
                return const(-cval(v))
            if v.op == "store":
                w = simp.binop("*", v, const(-1))
                if w.op == "store":
                    return w
            return mk("un", (v,), "neg")
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("un", (v,), "~")

    def e_BinOp(self, e, st):
        a, b = self.E(e.left, st), self.E(e.right, st)
        op = BINOPS[type(e.op)]
        if op == "+":
            ra, rb = self.raw(a, st), self.raw(b, st)
            if simp.is_listy(ra) and simp.is_listy(rb):
                return simp.cat(ra, rb)
        if op == "*" and self.pol.unroll:
            ra, rb = self.raw(a, st), self.raw(b, st)
            if rb.op == "list":
                ra, rb, a, b = rb, ra, b, a
            if ra.op == "list" and len(ra.args) == 1 and rb.op != "const":
                d = self.domain(self.lib_call("range", [b], [], st), st)
                if d[0] != "known":
                    acc = lst([])
                    for j in range(self.trips(d)):
                        acc = simp.cat(acc, ite(self.V(self.gate(d, j), st), self.V(ra, st), lst([])))
                    return acc
        if op == "%" and self.raw(a, st).op == "const" and self.raw(a, st).attr[0] == "str":
            return mk("fstr", (self.V(a, st), self.V(b, st)))
        return simp.binop(op, self.V(a, st), self.V(b, st))

    def e_Compare(self, e, st):
        left = self.E(e.left, st)
        r = None
        for o, x in zip(e.ops, e.comparators):
            right = self.E(x, st)
            op = CMPOPS[type(o)]
            rl, rr = self.raw(left, st), self.raw(right, st)
            if op in ("is", "isnot", "==", "!=") and (rl.op in ("inst", "clo", "bm") or rr.op in ("inst", "clo", "bm")) and (rl is NONEN or rr is NONEN):
                c = const(op in ("isnot", "!="))
            elif op in ("in", "notin") and rr.op == "dict":
                c = simp.cmp(op, self.V(left, st), lst(rr.attr))
            else:
                c = simp.cmp(op, self.V(left, st), self.V(right, st))
            r = c if r is None else and_(r, c)
            left = right
        return r

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e.generators, lambda s: self.E(e.elt, s), st)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return mk("call", (self.V(self.e_ListComp(e, st), st),), ("set", ()))

    def e_DictComp(self, e, st):
        l = self.comp(e.generators, lambda s: tup([self.EV(e.key, s), self.EV(e.value, s)]), st)
        l = self.V(l, st)
        if l.op == "list" and all(x.op == "tuple" and x.args[0].op in ("const", "enum") for x in l.args):
            r = mk("dict", (), ())
            for x in l.args:
                r = simp.store(r, x.args[0], x.args[1])
            return r
        return mk("call", (l,), ("dict", ()))

    def comp(self, gens, elt, st):
        sv = dict(st.frames[self.fid])

        def go(k):
            if k == len(gens):
                return lst([elt(st)])
            g = gens[k]
            it = self.E(g.iter, st)
            e2 = self.either(it, st)
            if e2 is not None:
                x = self.V(over(k, g, e2[1]), st)
                return ite(e2[0], x, self.V(over(k, g, e2[2]), st))
            return over(k, g, it)

        def over(k, g, it):
            d = self.domain(it, st)
            if d[0] == "known":
                acc = lst([])
                for x in d[1]:
                    self.assign(g.target, x, st)
                    c = TRUE
                    for i in g.ifs:
                        c = and_(c, self.C(i, st))
                    t = truth_const(c)
                    if t is False:
                        continue
                    v = go(k + 1)
                    if t is not True:
                        v = ite(c, self.V(v, st), lst([]))
                    acc = simp.cat(acc, v)
                return acc
            if self.pol.unroll:
                acc = lst([])
                for j in range(self.trips(d)):
                    c = self.V(self.gate(d, j), st)
                    if truth_const(c) is False:
                        break
                    self.assign(g.target, d[2](const(j)), st)
                    for i in g.ifs:
                        c = and_(c, self.C(i, st))
                    v = self.V(go(k + 1), st)
                    acc = simp.cat(acc, ite(c, v, lst([])))
                return acc
            L = fresh()
            idx = mk("idx", (), L)
            self.assign(g.target, d[2](idx), st)
            c = TRUE
            for i in g.ifs:
                c = and_(c, self.C(i, st))
            v = self.V(go(k + 1), st)
            if c is not TRUE:
                v = ite(c, v, lst([]))
            return close_map(L, self.V(d[1], st), v)

        r = go(0)
        # restore comprehension variables
        cur = st.frames[self.fid]
        for name in {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}:
            if name in sv:
                cur[name] = sv[name]
            else:
                cur.pop(name, None)
        return r

    # ---- calls ------------------------------------------------------------------
    def e_Call(self, e, st):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return mk("supr", (st.frames[self.fid].get("self", mk("inst", (), (self.cls.qual, 0))),))
        if isinstance(fn, ast.Attribute):
            base = self.E(fn.value, st)
            r = self.raw(base, st)
            if fn.attr in ("starmap", "map") and len(e.args) >= 2 and r.op not in ("inst", "supr") and (fn.attr == "starmap" or r.op == "call" and r.attr[0].endswith("Pool")):
                # a pool's (star)map returns the results in the order of the arguments
                v = f"__el{len(st.frames)}"
                el = ast.Name(v, ast.Load())
                if fn.attr == "starmap":
                    el = ast.Starred(el, ast.Load())
                fv = self.E(e.args[0], st)
                fnm = v + "f"
                st.frames[self.fid][fnm] = fv
                lc = ast.ListComp(ast.Call(ast.Name(fnm, ast.Load()), [el], []), [ast.comprehension(ast.Name(v, ast.Store()), e.args[1], [], 0)])
                ast.fix_missing_locations(ast.copy_location(lc, e))
                r = self.e_ListComp(lc, st)
                st.frames[self.fid].pop(fnm, None)
                return r
            if r.op not in ("lib", "mref", "cref", "inst", "supr"):
                return self.method_call(e, base, fn.attr, st)
            if r.op == "lib" and r.attr in ("np.ndarray", "str", "list", "dict", "set") and e.args and fn.attr not in ("fromkeys", "maketrans") and not isinstance(e.args[0], ast.Starred):
                # unbound method: C.m(x, ...) is x.m(...)
                return self.e_Call(ast.copy_location(ast.Call(ast.copy_location(ast.Attribute(e.args[0], fn.attr, ast.Load()), fn), e.args[1:], e.keywords), e), st)
            if r.op == "inst":
                f = self.get_attr(r, fn.attr, st)
            else:
                f = self.get_attr(base if r.op != "lib" else r, fn.attr, st)
        else:
            f = self.E(fn, st)
        args, kws = self.args(e, st)
        return self.apply(f, args, kws, st, e)

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.E(a.value, st)
                d = self.domain(v, st)
                if d[0] == "known":
                    args += d[1]
                else:
                    args.append(mk("star", (self.V(v, st),)))
            else:
                args.append(self.E(a, st))
        kws = []
        for k in e.keywords:
            v = self.E(k.value, st)
            if k.arg is None:
                rv = self.raw(v, st)
                if rv.op == "dict" and all(q.op == "const" for q in rv.attr):
                    for q, x in zip(rv.attr, rv.args):
                        kws.append((cval(q), x))
                else:
                    kws.append(("**", v))
            else:
                kws.append((k.arg, v))
        return args, kws

    def apply(self, f, args, kws, st, e=None):
        f = self.raw(f, st)
        if f.op == "fref":
            return self.repo_call(f.attr, None, args, kws, st)
        if f.op == "bm":
            return self.repo_call(f.attr, f.args[0], args, kws, st)
        if f.op == "cref":
            return self.construct(f.attr, args, kws, st)
        if f.op == "clo":
            clo = self.clos[f.attr]
            if clo in self.stack or self.depth > self.pol.depth:
                return mk("call", [self.V(a, st) for a in args], ("rec_clo", ()))
            return self.call_closure(clo, args, kws, st)
        if f.op == "lib":
            return self.lib_call(f.attr, args, kws, st)
        fv = self.V(f, st)
        if fv.op == "bmf":
            return mk("mcall", [fv.args[0]] + [self.V(a, st) for a in args] + [self.V(v, st) for _, v in sorted(kws, key=lambda t: t[0])], (fv.attr, tuple(sorted(k for k, _ in kws))))
        if fv.op == "lam" and len(fv.attr[0]) == len(args) and not kws:
            m = {mk("idx", (), i).id: self.V(a, st) for i, a in zip(fv.attr[0], args)}
            m["__free__"] = list(fv.attr[0])
            return subst(fv.args[0], m)
        if fv.op == "sel" and len(fv.args) == 2 and fv.args[0].op == "heap0" and fv.attr not in MUTATORS and fv.attr not in METH2FN:
            # what was taken from the object by that name is called
            return self.method_apply(None, fv.args[1], fv.attr, args, kws, st)
        kws = sorted(kws, key=lambda t: t[0])
        return mk("apply", [fv] + [self.V(a, st) for a in args] + [self.V(v, st) for _, v in kws], tuple(k for k, _ in kws))

    def call_closure(self, clo, args, kws, st, reify=False):
        if not hasattr(self, "parent"):
            self.parent = {}
        fid = fresh()
        self.parent[fid] = clo.fid
        st.frames[fid] = {}
        self.bind_params(clo.node, args, kws, st, fid, clo.mod, clo.cls, clo.fid)
        self.stack.append(clo)
        self.depth += 1
        nr = len(self.raises)
        pc0 = st.pc
        try:
            ret, st2 = self.run_body(clo.node, st, fid, clo.mod, clo.cls)
        finally:
            self.stack.pop()
            self.depth -= 1
        if reify:
            del self.raises[nr:]
            return self.V(ret, st2)
        self.adopt(st, st2)
        st.pc = pc0
        st.frames.pop(fid, None)
        return ret

    def adopt(self, st, st2):
        if st is not st2:
            st.frames, st.store, st.heap = st2.frames, st2.store, st2.heap

    def bind_params(self, f, args, kws, st, fid, mod, cls, deffid=None):
        a = f.args
        pos = a.posonlyargs + a.args
        fr = st.frames[fid]
        kws = list(kws)
        if any(x.op == "star" for x in args):
            k = next(i for i, x in enumerate(args) if x.op == "star")
            sv = args[k].args[0]
            pre = args[:k]
            rest_params = len(pos) - k
            if not a.vararg or k < len(pos):
                args = pre + [simp.getitem(sv, const(j)) for j in range(max(0, rest_params - len(args[k + 1:])))] + args[k + 1:]
            else:
                pass
        star = None
        for p, x in zip(pos, args):
            fr[p.arg] = self.asparam(x, st)
        extra = args[len(pos):]
        if a.vararg:
            if len(extra) == 1 and extra[0].op == "star":
                fr[a.vararg.arg] = self.newloc(st, extra[0].args[0])
            else:
                fr[a.vararg.arg] = tup(extra)
        names = {p.arg for p in pos + a.kwonlyargs}
        rest = []
        for k, v in kws:
            if k in names:
                fr[k] = self.asparam(v, st)
            elif k == "**":
                rest.append(v)
            else:
                rest.append((k, v))
        if a.kwarg:
            d = {const(k): v for k, v in [r for r in rest if isinstance(r, tuple)]}
            fr[a.kwarg.arg] = mk("dict", list(d.values()), tuple(d.keys())) if all(isinstance(r, tuple) for r in rest) else self.newloc(st, mk("sym", (), ("kwargs", None)))
        nd = len(a.defaults)
        for p, dflt in list(zip(pos[len(pos) - nd:], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in fr:
                v = self.default_val(dflt, mod, st)
                fr[p.arg] = self.asparam(v, st)
        for p in pos + a.kwonlyargs:
            if p.arg not in fr:
                fr[p.arg] = self.newloc(st, mk("sym", (), (f"missing.{p.arg}", None)))

    def asparam(self, x, st):
        if x.op in ("loc", "const", "enum", "inst", "clo", "fref", "cref", "lib", "bm", "list", "tuple"):
            return x if x.op not in ("list", "tuple") else self.newloc(st, x)
        return self.newloc(st, x)

    def default_val(self, dflt, mod, st):
        return self.const_expr(dflt, mod, st)

    def repo_call(self, qual, recv, args, kws, st):
        f = self.repo.funcs[qual]
        mod, cls = self.repo.owner[qual]
        short = qual.split(".")[-1]
        self.calls_seen.add(qual)
        keep = self.pol.keep(qual) and short != "__init__"
        if not keep and (self.depth >= self.pol.depth or qual in self.stack):
            keep = True
        if not keep:
            self.inlined.add(qual)
            fid = fresh()
            st.frames[fid] = {}
            full = ([recv] if recv is not None else []) + args
            self.bind_params(f, full, kws, st, fid, mod, cls)
            self.stack.append(qual)
            self.depth += 1
            pc0 = st.pc
            try:
                ret, st2 = self.run_body(f, st, fid, mod, cls)
            finally:
                self.stack.pop()
                self.depth -= 1
            self.adopt(st, st2)
            st.pc = pc0
            st.frames.pop(fid, None)
            return ret
        return self.modular_call(qual, f, mod, cls, recv, args, kws, st)

    def modular_call(self, qual, f, mod, cls, recv, args, kws, st):
        fid = fresh()
        st.frames[fid] = {}
        full = ([recv] if recv is not None else []) + args
        self.bind_params(f, full, kws, st, fid, mod, cls)
        bound = st.frames.pop(fid)
        a = f.args
        dflts = {}
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            dflts[p.arg] = d
        names, vals = [], []
        for p in sorted(bound):
            v = bound[p]
            fv = self.V(v, st)
            if p in dflts and isinstance(dflts[p], ast.Constant) and fv is const(dflts[p].value):
                continue
            if p in dflts and isinstance(dflts[p], ast.UnaryOp) and core.is_num(fv) and isinstance(dflts[p].operand, ast.Constant) and cval(fv) == -dflts[p].operand.value:
                continue
            names.append(p)
            vals.append(fv)
        pn = {p.arg for p in pos + a.kwonlyargs}
        if not a.kwarg:
            for kk, vv in sorted([(k, v) for k, v in kws if k not in pn], key=lambda t: t[0]):
                names.append("kw:" + kk)
                vals.append(self.V(vv, st))
        if not a.vararg and not any(x.op == "star" for x in args):
            for j, vv in enumerate(full[len(pos):]):
                names.append(f"pos:{j}")
                vals.append(self.V(vv, st))
        reads = self.reads.get(qual)
        if reads is None:
            reads = self.repo.eff.fn[qual].reads
        for h in sorted(st.heap):
            hv = st.heap[h]
            if hv is not self.heap0(h) and h in reads:
                names.append("heap:" + h)
                vals.append(hv)
        node = mk("rcall", vals, (short_qual(qual), tuple(names)))
        if getattr(self, "rlog", None) is not None:
            self.rlog.append(node)
        e = self.repo.eff.fn.get(qual)
        if e is not None:
            for p in e.mut:
                v = bound.get(p)
                if v is None:
                    continue
                if v.op == "loc" and p != "self":
                    self.update_place(None, v, mk("modarg", (node,), p), st)
            ats = {}
            for (p, at) in e.attrst:
                v = bound.get(p)
                if v is None:
                    continue
                if v.op == "inst":
                    if p == "self" and at in e.selfst or p != "self":
                        st.store[("i", v.attr[1], at)] = self.newloc(st, mk("modattr", (node,), at))
                else:
                    ats[at] = v
            if recv is not None and recv.op == "inst":
                for at in e.selfst:
                    st.store[("i", recv.attr[1], at)] = self.newloc(st, mk("modattr", (node,), at))
            for at in sorted(ats):
                h = st.heap.get(at) or self.heap0(at)
                st.heap[at] = mk("heapcall", (node, h), at)
        return node

    def construct(self, cq, args, kws, st):
        c = self.cls_of(cq)
        if c.is_enum:
            return mk("call", [self.V(a, st) for a in args], (cq, ()))
        iid = fresh()
        inst = mk("inst", (), (cq, iid))
        if c.is_dataclass:
            fields = [n for n, _ in c.fields]
            for (n, d) in c.fields:
                st.store[("i", iid, n)] = NONEN if d is None else self.const_expr(d, c.mod, st)
            for n, a in zip(fields, args):
                st.store[("i", iid, n)] = self.asparam(a, st)
            for k, v in kws:
                st.store[("i", iid, k)] = self.asparam(v, st)
            return inst
        q = self.repo.method(c, "__init__")
        if q is None:
            return inst
        if any(isinstance(b, str) and b in ("ValueError", "Exception") for b in c.bases):
            return mk("call", (), (cq, ()))
        if c.name in ("Formula", "GSMM", "GAMM", "GAMMLSS"):
            kws = sorted(kws, key=lambda t: t[0])
            return mk("call", [self.V(a, st) for a in args] + [self.V(v, st) for _, v in kws], ("new." + c.name, tuple(k for k, _ in kws)))
        if self.depth >= self.pol.depth:
            return mk("call", [self.V(a, st) for a in args], ("new." + c.name, ()))
        self.repo_call(q, inst, args, kws, st)
        return inst

    # -- method calls on values that are not known instances
    def method_call(self, e, base, name, st):
        args, kws = self.args(e, st)
        return self.method_apply(e.func.value, base, name, args, kws, st)

    def method_apply(self, bexpr, base, name, args, kws, st):
        r = self.raw(base, st)
        if name in MUTATORS or name in ("sort",):
            res = self.mutate(bexpr, base, r, name, args, kws, st)
            if res is not None:
                return res
        if r.op == "dict" and name in ("keys", "values", "items", "get", "copy"):
            if name == "keys":
                return lst(r.attr)
            if name == "values":
                return lst(r.args)
            if name == "items":
                return lst([tup([k, v]) for k, v in zip(r.attr, r.args)])
            if name == "get" and args and self.V(args[0], st).op == "const":
                k = self.V(args[0], st)
                if k in r.attr:
                    return r.args[r.attr.index(k)]
                return args[1] if len(args) > 1 else NONEN
        v = self.V(base, st)
        if name == "format" and v.op == "const" and v.attr[0] == "str":
            x = self.str_format(cval(v), args, kws, st)
            if x is not None:
                return x
        if v.op == "obj":
            c = next((m.classes[v.attr[0]] for m in self.repo.mods.values() if v.attr[0] in m.classes), None)
            if c is not None:
                q = self.repo.method(c, name)
                if q is not None:
                    # rematerialise the frozen object
                    iid = fresh()
                    inst = mk("inst", (), (c.qual, iid))
                    for k, x in zip(v.attr[1], v.args):
                        st.store[("i", iid, k)] = self.asparam(x, st)
                    return self.repo_call(q, inst, args, kws, st)
        if name == "copy" and not args:
            return self.do_copy(base, st)
        if name in METH2FN or name in ("dot", "multiply", "power", "index_of_nothing"):
            if not (name in self.repo.by_method):
                av = [self.V(a, st) for a in args]
                if name == "dot" and len(av) == 1:
                    return simp.binop("@", v, av[0])
                if name == "multiply" and len(av) == 1:
                    return simp.binop("*", v, av[0])
                if name == "power" and len(av) == 1:
                    return simp.binop("**", v, av[0])
                return self.lib_call("np." + name, [v] + args, kws, st)
        if name in RNGSIG and name not in self.repo.by_method and 0 < len(args) <= len(RNGSIG[name]) and not any(a.op == "star" for a in args):
            kws = list(kws) + list(zip(RNGSIG[name], args))
            args = []
        # dynamic dispatch on a repository method name: canonical parameter names if every candidate agrees
        kws = sorted(kws, key=lambda t: t[0])
        av = [self.V(a, st) for a in args]
        kv = [(k, self.V(x, st)) for k, x in kws]
        cands = self.repo.by_method.get(name, [])
        names = []
        vals = []
        if cands and not any(a.op == "star" for a in av) and not any(k == "**" for k, _ in kv):
            sigs = []
            for q in cands:
                a = self.repo.funcs[q].args
                sigs.append([p.arg for p in a.posonlyargs + a.args][1:])
            k = len(av)
            lab = [s[:k] for s in sigs if len(s) >= k]
            if lab and all(x == lab[0] for x in lab):
                allv = dict(zip(lab[0], av))
                allv.update(dict(kv))
                # drop arguments equal to a default shared by all candidates that have it
                for p in list(allv):
                    ds = []
                    for q in cands:
                        a = self.repo.funcs[q].args
                        pos = a.posonlyargs + a.args
                        dd = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
                        dd.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                        if p in [x.arg for x in pos + a.kwonlyargs]:
                            ds.append(dd.get(p))
                    if ds and all(isinstance(d, ast.Constant) for d in ds) and len({repr(d.value) for d in ds}) == 1 and allv[p] is const(ds[0].value):
                        del allv[p]
                names = sorted(allv)
                vals = [allv[p] for p in names]
                av, kv = [], []
        reads = set()
        for q in cands:
            reads |= self.reads.get(q, self.repo.eff.fn[q].reads)
        hn, hv = [], []
        for h in sorted(st.heap):
            if st.heap[h] is not self.heap0(h) and h in reads:
                hn.append("heap:" + h)
                hv.append(st.heap[h])
        node = mk("mcall", [v] + av + [x for _, x in kv] + vals + hv, (name, tuple(k for k, _ in kv) + tuple(names) + tuple(hn)))
        # effects of dynamic candidates on passed lists / objects
        allmut = {}
        for q in cands:
            ef = self.repo.eff.fn[q]
            a = self.repo.funcs[q].args
            pn = [p.arg for p in a.posonlyargs + a.args][1:]
            bound = dict(zip(pn, args))
            bound.update({k: x for k, x in kws})
            for p in ef.mut:
                if p in bound and bound[p].op == "loc":
                    allmut[bound[p].attr] = (bound[p], p)
        for k, (loc, p) in allmut.items():
            if self.sortof(self.V(loc, st)) in ("list", "array", "sparse", None) and self.relevant_mut(name):
                self.update_place(None, loc, mk("modarg", (node,), p), st)
        # generators advance
        if is_rng(r, st, self):
            self.advance(base, node, st)
        self.advance_args(args, kws, node, st)
        return node

    def relevant_mut(self, name):
        return name in ("build_penalty",)

    def advance(self, base, node, st):
        if base.op == "loc":
            st.store[base.attr] = mk("rngnext", (self.V(st.store[base.attr], st), node))

    def advance_args(self, args, kws, node, st):
        for x in list(args) + [v for _, v in kws]:
            if x.op == "loc" and is_rng(self.raw(x, st), st, self):
                self.advance(x, node, st)

    def mutate(self, bexpr, base, r, name, args, kws, st):
        """list/dict/array mutators; returns result node or None when not applicable"""
        if name in self.repo.by_method and r.op not in ("list", "cat", "map", "dict"):
            return None
        if name in ("append",):
            x = args[0]
            if r.op == "list":
                new = simp.append(r, x)
            else:
                new = simp.append(self.V(base, st), self.V(x, st))
            self.update_place(bexpr, base, new, st)
            return NONEN
        if name == "extend":
            x = args[0]
            d = self.domain(x, st)
            xr = self.raw(x, st)
            if d[0] == "known":
                add = lst(d[1])
            else:
                add = xr if simp.is_listy(xr) else None
                if add is None:
                    L = fresh()
                    add = mk("map", (self.V(d[1], st), self.V(d[2](mk("idx", (), L)), st)), (L,))
                    if add.op == "map" and add.args[1] is mk("getitem", (self.V(x, st), mk("idx", (), L))):
                        add = mk("call", (self.V(x, st),), ("list", ()))
            new = simp.cat(r if r.op == "list" else self.V(base, st), add if r.op == "list" and add.op == "list" else self.V(add, st))
            self.update_place(bexpr, base, new if not (new.op != "list" and new.dirty) else self.V(new, st), st)
            return NONEN
        if name == "pop" and r.op == "list" and not args and r.args:
            self.update_place(bexpr, base, lst(r.args[:-1]), st)
            return r.args[-1]
        if name == "insert" and r.op == "list" and is_int(self.V(args[0], st)):
            k = cval(self.V(args[0], st))
            a = list(r.args)
            a.insert(k, args[1])
            self.update_place(bexpr, base, lst(a), st)
            return NONEN
        if name == "insert" and r.op != "list" and len(args) == 2 and self.V(args[0], st) is const(0) and simp.is_listy(self.V(base, st)):
            self.update_place(bexpr, base, simp.cat(lst([self.V(args[1], st)]), self.V(base, st)), st)
            return NONEN
        if name == "update" and r.op == "dict" and args and self.raw(args[0], st).op == "dict":
            d2 = self.raw(args[0], st)
            n = r
            for k, x in zip(d2.attr, d2.args):
                n = simp.store(n, k, x)
            self.update_place(bexpr, base, n, st)
            return NONEN
        if name in ("sort_indices", "sum_duplicates", "eliminate_zeros"):
            return NONEN
        v = self.V(base, st)
        kws = sorted(kws, key=lambda t: t[0])
        node = mk("mcall", [v] + [self.V(a, st) for a in args] + [self.V(x, st) for _, x in kws], (name, tuple(k for k, _ in kws)))
        self.update_place(bexpr, base, mk("mutated", (node,)), st)
        return node

    def do_copy(self, base, st):
        r = self.raw(base, st)
        if r.op in ("list", "tuple", "dict"):
            return self.newloc(st, mk(r.op, [self.do_copy(x, st) if x.dirty else x for x in r.args], r.attr))
        if r.op == "inst":
            iid = fresh()
            for k, x in list(st.store.items()):
                if k[0] == "i" and k[1] == r.attr[1]:
                    st.store[("i", iid, k[2])] = self.do_copy(x, st) if x.dirty else x
            if r.attr[1] in self.self_ids:
                return mk("copy", (mk("sym", (), ("self", None)),), 0)
            return mk("inst", (), (r.attr[0], iid))
        v = self.V(base, st)
        if v.op == "const" or v.op in ("list", "map", "cat", "tuple") and False:
            return v
        k = self.copies.get(v.id, 0)
        self.copies[v.id] = k + 1
        return self.newloc(st, mk("copy", (v,), k))

    def lib_call(self, name, args, kws, st):
        name = FNALIAS.get(name, name)
        if name == "print" and self.prints:
            h = st.heap.get("__print__") or self.heap0("__print__")
            st.heap["__print__"] = mk("call", [h] + [self.V(a, st) for a in args] + [self.V(v, st) for k, v in kws], ("__print__", tuple(k for k, _ in kws)))
            return NONEN
        if name in IGNORED:
            return NONEN
        if name in ("copy.deepcopy", "copy.copy", "np.copy") and len(args) == 1:
            return self.do_copy(args[0], st)
        if name == "len" and len(args) == 1:
            r = self.raw(args[0], st)
            if r.op in ("list", "tuple", "dict"):
                x = simp.length(r)
                if x.op == "const":
                    return x
            return simp.length(self.V(args[0], st))
        if name == "range":
            a = [self.V(x, st) for x in args]
            a = [const(0), a[0], const(1)] if len(a) == 1 else a + [const(1)] if len(a) == 2 else a
            return mk("range", a)
        if name == "enumerate":
            s0 = const(0)
            if len(args) > 1:
                s0 = self.V(args[1], st)
            for k, v in kws:
                if k == "start":
                    s0 = self.V(v, st)
            return mk("enumerate", (args[0], s0))
        if name == "zip":
            if not any(a.op == "star" for a in args):
                return mk("zip", args)
            if len(args) == 1 and not kws:
                return mk("unzip", (args[0].args[0],))
        if name == "reversed":
            return mk("reversed", (args[0],))
        if name == "itertools.repeat" and len(args) == 1:
            return mk("repeat", (args[0],))
        if name in ("list", "tuple") and len(args) <= 1:
            if not args:
                return mk(name, ())
            d = self.domain(args[0], st)
            if d[0] == "known":
                return mk(name, d[1])
            r = self.raw(args[0], st)
            if r.op in ("map", "cat", "flat"):
                return r
            if r.op in ("range", "enumerate", "zip", "reversed") and self.pol.unroll:
                acc = lst([])
                for j in range(self.trips(d)):
                    c = self.V(self.gate(d, j), st)
                    if truth_const(c) is False:
                        break
                    acc = simp.cat(acc, ite(c, lst([self.V(d[2](const(j)), st)]), lst([])))
                return acc
            if r.op in ("range", "enumerate", "zip", "reversed"):
                L = fresh()
                return mk("map", (self.V(d[1], st), self.V(d[2](mk("idx", (), L)), st)), (L,))
            return mk("call", (self.V(args[0], st),), ("list", ()))
        if name.split(".")[-1] == "tqdm" and len(args) == 1:
            return args[0]          # a progress bar hands on the elements
        if name == "dict" and not args:
            if kws and all(k != "**" for k, _ in kws):
                return mk("dict", [v for _, v in kws], tuple(const(k) for k, _ in kws))
            if not kws:
                return mk("dict", (), ())
        if name == "isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1], st)
        if name == "bool" and len(args) == 1:
            v = self.V(args[0], st)
            return v if boolish(v) else mk("call", (v,), ("bool", ()))
        if name == "hasattr" or name == "getattr":
            r = self.raw(args[0], st)
            if name == "getattr" and len(args) >= 2 and self.V(args[1], st).op == "const":
                return self.get_attr(args[0], cval(self.V(args[1], st)), st)
        if name == "setattr" and len(args) == 3 and self.V(args[1], st).op == "const":
            self.set_attr(args[0], cval(self.V(args[1], st)), args[2], st)
            return NONEN
        if name == "map" and len(args) == 2:
            d = self.domain(args[1], st)
            if d[0] == "known":
                return lst([self.apply(args[0], [x], [], st) for x in d[1]])
            L = fresh()
            return close_map(L, self.V(d[1], st), lst([self.V(self.apply(args[0], [d[2](mk("idx", (), L))], [], st), st)]))
        if name in ("np.apply_along_axis", "functools.reduce"):
            pass
        av = [self.V(a, st) for a in args]
        kv = [(k, self.V(v, st)) for k, v in kws]
        # canonical argument order for known signatures
        sig = SIGS.get(name)
        if sig and not any(a.op == "star" for a in av) and not any(k == "**" for k, _ in kv):
            d = {k: v for k, v in kv}
            if len(av) <= len(sig):
                full = dict(zip(sig, av))
                full.update(d)
                pos = []
                for p in sig:
                    if p in full:
                        pos.append(full.pop(p))
                    else:
                        break
                av = pos
                kv = list(full.items())
        if name == "int" and len(av) == 1 and not kv:
            # whole part of a quotient of counts
            x = av[0]
            if x.op == "call" and x.attr in (("np.floor", ()), ("math.floor", ())) and len(x.args) == 1:
                x = x.args[0]
            if x.op == "bin" and x.attr == "/" and is_int(x.args[1]) and cval(x.args[1]) > 0:
                return simp.binop("//", x.args[0], x.args[1])
            if simp.integral(x):
                return x
        if name == "np.array_split" and len(av) == 2 and not kv and av[0].op == "call" and av[0].attr == ("np.arange", ()) and len(av[0].args) == 1:
            av[0] = mk("range", (const(0), av[0].args[0], const(1)))
        if name in LIBALIAS and len(av) == 2 and not kv:
            return simp.binop(LIBALIAS[name], av[0], av[1])
        if name == "np.array" and len(av) == 1 and not kv and av[0].op == "map" and len(av[0].args) == 2 and is_num(av[0].args[1]):
            c = cval(av[0].args[1])
            if c in (0, 1):
                return mk("call", (av[0].args[0],), ("np.ones" if c else "np.zeros", ()))
            return mk("call", (av[0].args[0], av[0].args[1]), ("np.full", ()))
        if name in ("np.zeros", "np.ones", "np.empty", "np.full") and av and av[0].op in ("tuple", "list") and len(av[0].args) == 1 and av[0].args[0].op != "star":
            av[0] = av[0].args[0]
        if name in ("np.zeros_like", "np.ones_like") and len(av) == 1 and not kv:
            return mk("call", (mk("shape", (av[0],)),), (name[:-5], ()))
        if name == "slice" and 1 <= len(av) <= 3 and not kv:
            a3 = [NONEN, av[0], NONEN] if len(av) == 1 else av + [NONEN] * (3 - len(av))
            return mk("slice", a3)
        if name == "np.isin" and any(k == "invert" for k, _ in kv):
            inv = next(v for k, v in kv if k == "invert")
            kv = [(k, v) for k, v in kv if k != "invert"]
            if inv is TRUE:
                return mk("un", (mk("call", av + [v for _, v in kv], (name, tuple(k for k, _ in kv))),), "~")
            if inv is not FALSE:
                kv.append(("invert", inv))
        if name == "np.tile" and len(av) == 2 and not kv and (is_scal(av[0])) and av[1].op not in ("tuple", "list"):
            name, av = "np.full", [av[1], av[0]]
        if name == "np.full_like" and len(av) == 2 and not kv:
            name, av = "np.full", [mk("shape", (av[0],)), av[1]]
        if name in ("np.zeros", "np.ones") and len(av) == 1 and len(kv) == 1 and kv[0][0] == "dtype" and kv[0][1].op == "lib" and kv[0][1].attr in ("bool", "np.bool_", "np.bool"):
            name, av, kv = "np.full", [av[0], const(name == "np.ones")], []
        if name == "np.full" and len(av) == 2 and not kv and is_num(av[1]) and cval(av[1]) in (0, 1) and av[1].attr[0] != "bool":
            return mk("call", (av[0],), ("np.ones" if cval(av[1]) else "np.zeros", ()))
        if name == "np.delete" and len(av) == 3 and not kv and is_int(av[2]) and av[0].op == "call" and av[0].attr == ("np.delete", ()) and len(av[0].args) == 3 and is_int(av[0].args[2]) and cval(av[0].args[2]) > cval(av[2]) >= 0:
            inner = av[0]
            return mk("call", (mk("call", (inner.args[0], av[1], av[2]), ("np.delete", ())), inner.args[1], inner.args[2]), ("np.delete", ()))
        if name == "np.isfinite" and len(av) == 1 and not kv:
            return mk("un", (mk("bin", (mk("call", av, ("np.isnan", ())), mk("call", av, ("np.isinf", ()))), "|"),), "~")
        if name == "np.square" and len(av) == 1:
            return simp.binop("**", av[0], const(2))
        if name == "~" and len(av) == 1:
            return mk("un", (av[0],), "~")
        if name in REDUCERS and len(av) == 1 and not kv:
            x = av[0]
            if x.op == "map":
                b = x.args[1] if len(x.args) == 2 else ite(x.args[2], x.args[1], const(0))
                if name == "sum" or scalarish(b):
                    return mk("sum", (x.args[0], b), x.attr)
            if x.op == "list" and not any(i.op == "star" for i in x.args) and name == "sum":
                acc = const(0)
                for i in x.args:
                    acc = simp.binop("+", acc, i)
                return acc
        if name in ("any", "all") and len(av) == 1 and not kv:
            r = quantify(av[0], name == "any")
            if r is not None:
                return r
        if name in ("max", "min") and len(av) == 2 and not kv:
            return mk("call", av, ("np.maximum" if name == "max" else "np.minimum", ()))
        kv.sort(key=lambda t: t[0])
        node = mk("call", av + [v for _, v in kv], (name, tuple(k for k, _ in kv)))
        self.advance_args(args, kws, node, st)
        return node

    def isinst(self, x, c, st):
        cr = self.raw(c, st)
        if cr.op == "tuple":
            r = FALSE
            for y in cr.args:
                r = or_(r, self.isinst(x, y, st))
            return r
        if cr.op == "bin" and cr.attr == "|":
            r = FALSE
            for y in cr.args:
                r = or_(r, self.isinst(x, y, st))
            return r
        xr = self.raw(x, st)
        cname = cr.attr if cr.op in ("cref", "lib") else None
        if xr.op in ("inst", "obj") and cr.op == "cref":
            k = self.cls_of(xr.attr[0]) if xr.op == "inst" else next((m.classes[xr.attr[0]] for m in self.repo.mods.values() if xr.attr[0] in m.classes), None)
            if k is not None and not (xr.op == "inst" and xr.attr[1] in self.self_ids):
                return const(cname.split(".")[-1] in [q.name for q in self.repo.mro(k)])
        if xr.op in ("list", "map", "cat", "flat") and cname == "list":
            return TRUE
        if xr.op == "const" and cr.op in ("cref",):
            return FALSE
        if xr.op == "const" and cname in ("int", "float", "str", "list", "tuple", "dict"):
            v = cval(xr)
            return const(type(v).__name__ == cname)
        if xr.op == "ite":
            return simp.ite_bool(xr.args[0], self.isinst(xr.args[1], c, st), self.isinst(xr.args[2], c, st))
        return mk("isinst", (self.V(x, st),), (cname or "?").split(".")[-1])

    # opaque expression kinds
    def e_Await(self, e, st):
        raise Unsupported("await")


class _St:
    __slots__ = ("store", "frames")

    def __init__(self, store, frame):
        self.store, self.frames = store, frame


def multi_assigned(mod, nm):
    k = 0
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == nm:
                    k += 1
    return k > 1


def quantify(x, some):
    """any()/all() of a sequence whose elements are known up to conditions"""
    if x.op == "list" and not any(i.op == "star" for i in x.args):
        acc = FALSE if some else TRUE
        for i in x.args:
            acc = or_(acc, i) if some else and_(acc, i)
        return acc
    if x.op == "cat":
        acc = FALSE if some else TRUE
        for i in x.args:
            r = quantify(i, some)
            if r is None:
                return None
            acc = or_(acc, r) if some else and_(acc, r)
        return acc
    if x.op == "ite":
        a, b = quantify(x.args[1], some), quantify(x.args[2], some)
        if a is None or b is None:
            return None
        return simp.ite_bool(x.args[0], a, b)
    return None


def is_scal(n):
    if n.op == "const":
        return n.attr[0] != "str"
    if n.op == "sym":
        return n.attr[1] in ("int", "float", "bool")
    if n.op == "un":
        return is_scal(n.args[0])
    if n.op == "bin":
        return all(is_scal(a) for a in n.args)
    if n.op == "call" and n.attr[0] in ("np.sqrt", "np.log", "np.exp", "np.abs", "abs") and len(n.args) == 1:
        return is_scal(n.args[0])
    return False


def boolish(n):
    if n.op in ("cmp", "not", "and", "or", "isinst"):
        return True
    return n.op == "const" and n.attr[0] == "bool"


_sorts: dict = {}
_scal: dict = {}


def scalarish(n):
    k = _scal.get(n.id)
    if k is None:
        k = _scal[n.id] = scalarish0(n)
    return k


def scalarish0(n):
    return n.op in ("sum", "len") or (n.op == "const") or (n.op == "bin" and all(scalarish(a) for a in n.args)) or \
        (n.op == "sym" and n.attr[1] in ("float", "int")) or (n.op == "call" and n.attr[0] in ("np.sum", "float", "int") and len(n.args) == 1)


def short_qual(q):
    return q


RNGSIG = {"choice": ("a", "size", "replace", "p"), "normal": ("loc", "scale", "size"), "uniform": ("low", "high", "size"), "integers": ("low", "high", "size"),
          "multivariate_normal": ("mean", "cov", "size"), "standard_normal": ("size",), "permutation": ("x",)}


def root(n):
    while n.op in ("getitem", "sel"):
        n = n.args[0] if n.op == "getitem" else n.args[1]
    return n


def is_rng(r, st, b):
    todo, seen = [r], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("rngnext", "copy"):
            todo.append(x.args[0])
        elif x.op == "loc":
            todo.append(st.store[x.attr])
        elif x.op == "ite":
            todo += x.args[1:3]
        elif x.op == "carry" and x.id in b.rngs or x.op == "sym" and x.attr[1:2] == ("rng",):
            return True
        elif x.op == "call" and x.attr[0].startswith("np.random.") and x.attr[0].split(".")[-1] in ("default_rng", "RandomState", "Generator"):
            return True
    return False


# ---- loop closing ----------------------------------------------------------------------
def close_map(L, n, v):
    """v: listy delta per iteration -> list node"""
    if v.op == "list" and len(v.args) == 1 and v.args[0].op != "star":
        x = v.args[0]
        if x.op == "getitem" and x.args[1] is mk("idx", (), L) and L not in x.args[0].free and n is simp.length(x.args[0]):
            return mk("call", (x.args[0],), ("list", ()))
        return mk("map", (n, v.args[0]), (L,))
    if v.op == "list" and not v.args:
        return lst([])
    if v.op == "ite" and v.args[1].op == "list" and len(v.args[1].args) == 1 and v.args[2].op == "list" and len(v.args[2].args) == 0:
        return mk("map", (n, v.args[1].args[0], v.args[0]), (L,))
    if v.op == "ite" and v.args[2].op == "list" and len(v.args[2].args) == 1 and v.args[1].op == "list" and len(v.args[1].args) == 0:
        return mk("map", (n, v.args[2].args[0], not_(v.args[0])), (L,))
    if v.op == "ite" and all(x.op == "list" and len(x.args) == 1 for x in v.args[1:]):
        return mk("map", (n, ite(v.args[0], v.args[1].args[0], v.args[2].args[0])), (L,))
    return mk("flat", (n, v), (L,))


def delta_list(b, c, memo=None):
    if memo is None:
        memo = {}
    if b.id in memo:
        return memo[b.id]
    r = None
    if b is c:
        r = lst([])
    elif b.op == "cat":
        d = delta_list(b.args[0], c, memo)
        r = None if d is None else simp.cat(d, b.args[1])
    elif b.op == "ite":
        x, y = delta_list(b.args[1], c, memo), delta_list(b.args[2], c, memo)
        r = None if x is None or y is None else ite(b.args[0], x, y)
    memo[b.id] = r
    return r


def delta_sum(b, c, cid, memo=None):
    """b = c + delta with delta free of c"""
    if memo is None:
        memo = {}
    if b.id not in memo:
        memo[b.id] = delta_sum0(b, c, cid, memo)
    return memo[b.id]


def delta_sum0(b, c, cid, memo):
    if b is c:
        return const(0)
    if b.op == "bin" and b.attr in ("+", "-"):
        l, r = b.args
        if cid in l.free and cid not in r.free:
            d = delta_sum(l, c, cid, memo)
            if d is None:
                return None
            return simp.binop(b.attr, d, r) if b.attr == "+" else simp.binop("-", d, r)
        if b.attr == "+" and cid in r.free and cid not in l.free:
            d = delta_sum(r, c, cid, memo)
            return None if d is None else simp.binop("+", l, d)
        return None
    if b.op == "ite" and cid not in b.args[0].free:
        x, y = delta_sum(b.args[1], c, cid, memo), delta_sum(b.args[2], c, cid, memo)
        if x is None or y is None:
            return None
        return ite(b.args[0], x, y)
    return None


def first_iter(b, c, cid, idx):
    """ite(i == 0, e, c + e) / ite(c is None, e, c + e) -> e"""
    if b.op != "ite":
        return None
    g, x, y = b.args
    isfirst = None
    if g.op == "cmp" and g.attr in ("==", "!="):
        a = set(g.args)
        if idx in a and const(0) in a:
            isfirst = g.attr == "=="
    if g.op == "cmp" and g.attr in ("is", "isnot") and set(g.args) == {c, NONEN}:
        isfirst = g.attr == "is"
    if g.op == "cmp" and g.attr == ">" and g.args[0] is idx and g.args[1] is const(0):
        isfirst = False
    if isfirst is None:
        return None
    if not isfirst:
        x, y = y, x
    if cid in x.free:
        return None
    d = delta_sum(y, c, cid)
    if d is not None and d is x:
        return x
    d = delta_list(y, c)
    if d is not None and d is x:
        return ("list", x)
    return None


def close_loop(L, idx, n, cs, names, inits, bodies, brk, retc, retv, has_exit, is_while):
    K = len(cs)
    cids = [c.attr[0] for c in cs]
    allc = frozenset(cids)
    res = [None] * K
    if not has_exit:
        # induction variables with loop-invariant integer-like step
        ch = True
        bodies = list(bodies)
        while ch:
            ch = False
            for k in range(K):
                if res[k] is not None:
                    continue
                b = bodies[k]
                d = delta_sum(b, cs[k], cids[k]) if cids[k] in b.free else None
                if d is not None and not (d.free & (allc | {L})) and not simp.is_listy(inits[k]) and inits[k].op != "sym_undef":
                    # closed form: init + step * i
                    cur = simp.binop("+", inits[k], simp.binop("*", idx, d)) if d is not const(0) else inits[k]
                    fin = simp.binop("+", inits[k], simp.binop("*", n, d)) if d is not const(0) else inits[k]
                    if core.is_num(d) or d.op in ("len",):
                        res[k] = fin
                        m = {cs[k].id: cur, "__free__": [cids[k]]}
                        bodies = [subst(x, m) if j != k else x for j, x in enumerate(bodies)]
                        ch = True
        unresolved = frozenset(cids[k] for k in range(K) if res[k] is None)
        for k in range(K):
            if res[k] is not None:
                continue
            b, c = bodies[k], cs[k]
            others = unresolved - {cids[k]}
            if not (b.free & unresolved):
                res[k] = mk("last", (n, b), (L,)) if L in b.free else b
                continue
            if b.free & others and not _only_self(b, others):
                continue
            d = delta_list(b, c)
            if d is not None and not (d.free & unresolved):
                res[k] = simp.cat(inits[k], close_map(L, n, d))
                continue
            d = delta_sum(b, c, cids[k])
            if d is not None and not (d.free & unresolved):
                s = mk("sum", (n, d), (L,))
                i0 = inits[k]
                res[k] = simp.binop("+", i0, s) if not simp.is_listy(i0) else None
                if res[k] is not None:
                    continue
            e = first_iter(b, c, cids[k], idx)
            if e is not None:
                if isinstance(e, tuple):
                    res[k] = close_map(L, n, e[1])
                else:
                    res[k] = mk("sum", (n, e), (L,))
                continue
            if b.op == "store" and b.args[0] is c and not (b.args[1].free & unresolved) and not (b.args[2].free & unresolved):
                res[k] = mk("scatter", (inits[k], n, b.args[1], b.args[2]), (L,))
                continue
    # generic fold over the unresolved ones
    live = [k for k in range(K) if res[k] is None]
    rc = rv = None
    for x in [k for k in live if str(names[k]).startswith("!")]:
        # refusals: nothing else reads them
        live.remove(x)
        need, work = {x}, [bodies[x], brk, retc]
        while work:
            fr = work.pop().free
            for k in range(K):
                if k not in need and cids[k] in fr:
                    need.add(k)
                    work.append(bodies[k])
        ks = sorted(need)
        args = [n, brk, retc, NONEN] + [inits[k] for k in ks] + [bodies[k] for k in ks]
        res[x] = mk("fold", args, (L, tuple(cids[k] for k in ks), tuple(names[k] for k in ks), ks.index(x)))
    if live or has_exit:
        # values closed on their own but read by the others travel along
        need = set(live)
        work = [bodies[k] for k in live] + [brk, retc, retv]
        while work:
            fr = work.pop().free
            for k in range(K):
                if k not in need and cids[k] in fr:
                    need.add(k)
                    work.append(bodies[k])
        own = set(live)
        live = sorted(need)
        args = [n, brk, retc, retv] + [inits[k] for k in live] + [bodies[k] for k in live]
        attr_ids = tuple(cids[k] for k in live)
        nms = tuple(names[k] for k in live)
        for j, k in enumerate(live):
            if k in own:
                res[k] = mk("fold", args, (L, attr_ids, nms, j))
        if retc is not FALSE:
            rc = mk("fold", args, (L, attr_ids, nms, "retc"))
            rv = mk("fold", args, (L, attr_ids, nms, "retv"))
    return res, rc, rv


def _only_self(b, others):
    return False
