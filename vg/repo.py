"""Parse a tree of Python sources; resolve names, classes, call effects. Nothing is imported or run."""
from __future__ import annotations
import ast
import os
import re
import hashlib

LIBCANON = {"numpy": "np", "scipy": "scp", "multiprocess": "mp", "multiprocessing": "mp", "pandas": "pd"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "sort", "reverse", "add",
            "discard", "setdefault", "popitem", "fill", "sort_indices", "resize", "setdiag", "sum_duplicates",
            "eliminate_zeros", "put", "itemset"}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = f"{mod.name}.{node.name}"
        self.methods = {}
        self.attrs = {}
        self.bases = [ast.unparse(b).split(".")[-1] for b in node.bases]
        self.is_enum = "Enum" in self.bases
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.fields = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                        self.fields.append((t.id, s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value


class Mod:
    def __init__(self, name, path, src, tree=None):
        self.name, self.path = name, path
        self.tree = ast.parse(src, path) if tree is None else tree
        self.funcs, self.classes, self.imports, self.globals, self.stars = {}, {}, {}, {}, []
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("lib", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("lib", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(s.module or "")
                    else:
                        self.imports[a.asname or a.name] = ("from", s.module or "", a.name, s.level)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals.setdefault(t.id, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals.setdefault(s.target.id, s.value)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)


def _stores(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def _always(body):
    """names assigned on every path through a block (straight-line approximation)"""
    out = set()
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.With)):
            out |= _stores(s)
        elif isinstance(s, ast.If) and s.orelse:
            out |= _always(s.body) & _always(s.orelse)
    return out


def exhaustive(f):
    """A chain of tests on one subject without else that gives a variable its only value in this pass is taken to be exhaustive: otherwise the
    variable would be unbound, or left over from an unrelated pass of a loop.  The last test becomes the else branch."""
    def subject(t):
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
            return "i:" + ast.unparse(t.args[0])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Is)):
            l, r = t.left, t.comparators[0]
            return "e:" + ast.unparse(r if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant) else l)
        return None

    def block(body, before):
        before = set(before)
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and s.orelse:
                chain, t = [s], s
                while len(t.orelse) == 1 and isinstance(t.orelse[0], ast.If):
                    t = t.orelse[0]
                    chain.append(t)
                if not t.orelse and len(chain) > 1:
                    subs = {subject(c.test) for c in chain}
                    if len(subs) == 1 and None not in subs:
                        com = set.intersection(*[_always(c.body) for c in chain]) - before
                        rest = {x.id for r in body[k + 1:] for x in ast.walk(r) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                        if com & rest:
                            chain[-2].orelse = chain[-1].body
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    block(b, before)
            for h in getattr(s, "handlers", []):
                block(h.body, before)
            if not isinstance(s, (ast.For, ast.While)):
                before |= _stores(s)
    a = f.args
    block(f.body, {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]})


class Repo:
    def __init__(self, root, rel=None):
        self.root = root
        self.mods: dict[str, Mod] = {}
        self.digest = hashlib.sha256()
        self.cpp, self.cpp_failed = {}, {}      # C++ sources: what is bound to Python, what could not be translated
        files = []
        for d, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in ("tests", "test", "docs", "__pycache__", "build", ".git", "examples"))
            for f in sorted(fn):
                if f.endswith((".py", ".cpp")):
                    files.append(os.path.join(d, f))
        for p in files:
            src = open(p, encoding="utf-8").read()
            self.digest.update(src.encode())
            nm = os.path.splitext(os.path.basename(p))[0]
            if nm == "__init__":
                continue
            if p.endswith(".cpp"):
                from . import cpp
                try:
                    tree, failed, P = cpp.module(p, src)
                except Exception as e:      # not in the translated subset: nothing is decided about this file
                    self.cpp_failed[os.path.basename(p)] = {"": f"{type(e).__name__}: {e}"}
                    continue
                self.cpp[os.path.basename(p)] = P
                if failed:
                    self.cpp_failed[os.path.basename(p)] = failed
                self.mods["cpp_" + nm] = Mod("cpp_" + nm, p, src, tree)
                continue
            self.mods[nm] = Mod(nm, p, src)
        self.funcs = {}
        self.owner = {}
        for m in self.mods.values():
            for n, f in m.funcs.items():
                self.funcs[f"{m.name}.{n}"] = f
                self.owner[f"{m.name}.{n}"] = (m, None)
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.funcs[f"{c.qual}.{n}"] = f
                    self.owner[f"{c.qual}.{n}"] = (m, c)
        for f in self.funcs.values():
            exhaustive(f)
        self.by_method = {}
        for q, (m, c) in self.owner.items():
            if c is not None:
                self.by_method.setdefault(q.split(".")[-1], []).append(q)
        self._eff = None

    def tuple_len(self, qual):
        """number of values function qual returns as a tuple on every path, or None"""
        f = self.funcs.get(qual)
        if f is None or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return None
        ks, todo = set(), list(f.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Return):
                v = x.value
                a = f.returns
                if isinstance(v, ast.Call) and isinstance(a, ast.Subscript) and ast.unparse(a.value) == "tuple" and isinstance(a.slice, ast.Tuple) and "..." not in ast.unparse(a):
                    ks.add(len(a.slice.elts))
                else:
                    ks.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in v.elts) else None)
            todo += list(ast.iter_child_nodes(x))
        return ks.pop() if len(ks) == 1 else None

    # -- names ------------------------------------------------------------
    def resolve(self, mod: Mod, name: str, depth=0):
        if name in mod.funcs:
            return ("func", f"{mod.name}.{name}")
        if name in mod.classes:
            return ("class", mod.classes[name])
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "lib":
                base = imp[1].split(".")[0]
                can = LIBCANON.get(base, base)
                return ("lib", ".".join([can] + imp[1].split(".")[1:]))
            _, module, sym, level = imp
            last = module.split(".")[-1] if module else ""
            if (level > 0 or module.startswith("mssm")):
                if last in self.mods:
                    if depth < 6:
                        r = self.resolve(self.mods[last], sym, depth + 1)
                        if r is not None:
                            return r
                    return ("unknown", f"{last}.{sym}")
                if sym in self.mods:
                    return ("repomod", sym)
                return ("unknown", f"{module}.{sym}")
            base = LIBCANON.get(module.split(".")[0], module.split(".")[0])
            return ("lib", ".".join([base] + module.split(".")[1:] + [sym]))
        if name in mod.globals:
            return ("global", mod, name)
        for s in mod.stars:
            last = s.split(".")[-1]
            if last in self.mods and depth < 6:
                r = self.resolve(self.mods[last], name, depth + 1)
                if r is not None:
                    return r
        return None

    def find_class(self, name, mod=None) -> Cls | None:
        if mod is not None:
            r = self.resolve(mod, name)
            if r and r[0] == "class":
                return r[1]
        for m in self.mods.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def mro(self, c: Cls):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.bases:
                bc = self.find_class(b, x.mod)
                if bc is not None:
                    todo.append(bc)
        return out

    def method(self, c: Cls, name):
        for k in self.mro(c):
            if name in k.methods:
                return f"{k.qual}.{name}"
        return None

    def subclass_of(self, c: Cls, names):
        return any(k.name in names for k in self.mro(c))

    # -- effects ------------------------------------------------------------
    @property
    def eff(self):
        if self._eff is None:
            self._eff = Effects(self)
        return self._eff


def param_names(f: ast.FunctionDef):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + \
        [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])


def ann_sort(ann):
    if ann is None:
        return None
    s = ast.unparse(ann)
    parts = [p.strip() for p in s.split("|")]
    parts = [p for p in parts if p != "None"]
    if not parts:
        return None
    p = parts[0]
    if p in ("float", "int", "bool", "str"):
        if len(parts) > 1 and any("array" in q for q in parts):
            return None
        return None if p == "bool" and len(parts) < s.count("|") + 1 else p
    if "ndarray" in p and not p.startswith(("list", "dict", "tuple", "Callable")):
        return "array"
    if "csc_array" in p or "csr_array" in p or "csc_matrix" in p:
        if not p.startswith(("list", "tuple")):
            return "sparse"
    if p.startswith("list"):
        return "list"
    if p.startswith("dict"):
        return "dict"
    if p in ("np.random.Generator", "numpy.random.Generator"):
        return "rng"
    return None


def result_sorts(repo):
    """(function, position or None) -> sort of a result that its annotation and its return statements say is never None"""
    out = {}
    for q, f in repo.funcs.items():
        a = f.returns
        if a is None or isinstance(a, ast.Constant):
            continue
        rets = []
        todo = list(f.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.Return):
                rets.append(x.value)
            todo += list(ast.iter_child_nodes(x))
        if not rets or any(r is None or isinstance(r, ast.Constant) and r.value is None for r in rets) or not isinstance(f.body[-1], (ast.Return, ast.Raise, ast.If, ast.With, ast.Try)):
            continue

        nul = {"None"}
        for x in ast.walk(f):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Constant) and y.value is None for y in ast.walk(x.value)):
                nul |= {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
        nul |= {p.arg for p in f.args.args + f.args.kwonlyargs}

        def may(x):
            return isinstance(x, ast.Name) and x.id in nul or isinstance(x, ast.Constant) and x.value is None

        def plain(x):
            t = ast.unparse(x)
            return not any(w in t.split("[")[0] for w in ("None", "|", "Any", "Optional", "object", "Callable", "Union")) and not (isinstance(x, ast.BinOp))
        if isinstance(a, ast.Subscript) and ast.unparse(a.value) == "tuple" and isinstance(a.slice, ast.Tuple):
            for k, x in enumerate(a.slice.elts):
                if plain(x) and all(isinstance(r, ast.Tuple) and len(r.elts) == len(a.slice.elts) and not may(r.elts[k]) for r in rets):
                    out[q, k] = ann_sort(x)
        elif plain(a) and not any(may(r) for r in rets):
            out[q, None] = ann_sort(a)
    return out


def attr_sorts(repo):
    """attribute name -> "bool" or "list" when every assignment to it in the repository gives such a value"""
    seen = {}

    def sort(e, par):
        if isinstance(e, ast.Constant):
            return "bool" if isinstance(e.value, bool) else "other"
        if isinstance(e, ast.Compare):
            return "bool" if all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops) or all(isinstance(c, ast.Constant) or (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len") for c in e.comparators + [e.left]) else "other"
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return "bool"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "bool", "any", "all"):
            return "bool"
        if isinstance(e, (ast.List, ast.ListComp)) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted")):
            return "list"
        if isinstance(e, ast.IfExp):
            a, b = sort(e.body, par), sort(e.orelse, par)
            return a if a == b else "other"
        if isinstance(e, ast.Name):
            return par.get(e.id, "other")
        return "other"

    def put(n, k):
        seen.setdefault(n, set()).add(k)
    for q, f in repo.funcs.items():
        par = {}
        a = f.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            t = ast.unparse(p.annotation) if p.annotation is not None else ""
            if t == "bool":
                par[p.arg] = "bool"
            elif t == "list" or (t.startswith("list[") and "|" not in re.sub(r"\[.*\]", "", t)):
                par[p.arg] = "list"
        stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        par = {k: v for k, v in par.items() if k not in stored}
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    if isinstance(t, ast.Attribute):
                        put(t.attr, sort(n.value, par) if n.value is not None else "other")
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                put(x.attr, "other")
            elif isinstance(n, (ast.For, ast.With, ast.comprehension)):
                t = n.target if not isinstance(n, ast.With) else None
                for x in ast.walk(t) if t is not None else ():
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        put(x.attr, "other")
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                put(n.target.attr, "other")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                put("*", "other")
    for m in repo.mods.values():
        for c in m.classes.values():
            for n, v in c.attrs.items():
                put(n, sort(v, {}) if isinstance(v, ast.AST) else "other")
            if c.is_dataclass:
                for n, _ in c.fields:
                    if n not in c.attrs:
                        put(n, "other")
    out = {n: next(iter(k)) for n, k in seen.items() if len(k) == 1 and next(iter(k)) in ("bool", "list")}
    ann = {}
    for m in repo.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.AnnAssign):
                t = n.target
                nm = t.attr if isinstance(t, ast.Attribute) else None
                if nm:
                    ann.setdefault(nm, set()).add(ast.unparse(n.annotation).replace(" ", ""))
        for c in m.classes.values():
            for n in c.node.body if hasattr(c, "node") else ():
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    ann.setdefault(n.target.id, set()).add(ast.unparse(n.annotation).replace(" ", ""))
    for n, k in ann.items():
        if n not in out and k <= {"float", "int", "float|None", "int|None"}:
            out[n] = "float"
    return out


class FnEff:
    __slots__ = ("params", "mut", "attrst", "selfst", "reads", "calls", "globst")


FRESH_CALLS = {"copy", "deepcopy"}
ALIAS_METHODS = {"reshape", "ravel", "T", "view", "get_terms", "get_lhs", "get_data", "get_depvar"}


class Effects:
    """Flow-insensitive, interprocedural: which parameters (or objects reachable from them) a function may modify."""

    def __init__(self, repo: Repo):
        self.repo = repo
        self.fn: dict[str, FnEff] = {}
        for q in repo.funcs:
            self.fn[q] = self._local(q)
        changed = True
        it = 0
        while changed and it < 30:
            changed = False
            it += 1
            for q, e in self.fn.items():
                for callee, argmap in e.calls:
                    ce = self.fn.get(callee)
                    if ce is None:
                        continue
                    for p, why in list(ce.mut.items()):
                        for root in argmap.get(p, ()):
                            if root in e.params and root not in e.mut:
                                e.mut[root] = f"via {callee}({p}): {why}"
                                changed = True
                    for (p, at), why in list(ce.attrst.items()):
                        for root in argmap.get(p, ()):
                            if root in e.params and (root, at) not in e.attrst:
                                e.attrst[(root, at)] = f"via {callee}: {why}"
                                changed = True
                    nr = ce.reads - e.reads
                    if nr:
                        e.reads |= nr
                        changed = True
                    if argmap.get("self") and "self" in argmap["self"] and ce.selfst - e.selfst:
                        e.selfst |= ce.selfst
                        changed = True

    def _local(self, q):
        repo = self.repo
        mod, cls = repo.owner[q]
        f = repo.funcs[q]
        e = FnEff()
        e.params = param_names(f)
        e.mut, e.attrst, e.selfst, e.reads, e.calls = {}, {}, set(), set(), []
        sorts = {a.arg: ann_sort(a.annotation) for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        roots: dict[str, set] = {p: {p} for p in e.params}
        fresh = set()

        def rootof(x):
            if isinstance(x, ast.Name):
                return roots.get(x.id, set())
            if isinstance(x, (ast.Attribute, ast.Starred)):
                return rootof(x.value)
            if isinstance(x, ast.Subscript):
                return rootof(x.value)
            if isinstance(x, ast.IfExp):
                return rootof(x.body) | rootof(x.orelse)
            if isinstance(x, (ast.Tuple, ast.List)):
                r = set()
                for y in x.elts:
                    r |= rootof(y)
                return r
            if isinstance(x, ast.Call):
                fn = x.func
                if isinstance(fn, ast.Name) and fn.id in ("enumerate", "zip", "reversed", "list", "tuple"):
                    r = set()
                    for y in x.args:
                        r |= rootof(y)
                    return r if fn.id not in ("list", "tuple") else r
                if isinstance(fn, ast.Attribute) and fn.attr in ALIAS_METHODS:
                    return rootof(fn.value)
            return set()

        def bind(t, rs):
            if isinstance(t, ast.Name):
                if rs - roots.get(t.id, set()):
                    roots.setdefault(t.id, set())
                    roots[t.id] = roots[t.id] | rs
                    return True
            elif isinstance(t, (ast.Tuple, ast.List)):
                return any([bind(y, rs) for y in t.elts])
            elif isinstance(t, ast.Starred):
                return bind(t.value, rs)
            return False

        # variables whose first and only role is a fresh rebinding of a parameter name are handled by order:
        # a parameter unconditionally rebound to a fresh value at top level before any mutation is not an alias.
        rebound_line = {}
        for s in f.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                if nm in e.params and nm not in rebound_line and not rootof(s.value):
                    rebound_line[nm] = s.lineno
        ch = True
        k = 0
        while ch and k < 8:
            ch = False
            k += 1
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    rs = rootof(n.value)
                    if rs:
                        for t in n.targets:
                            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                                for tt, vv in zip(t.elts, n.value.elts):
                                    ch |= bind(tt, rootof(vv))
                            else:
                                ch |= bind(t, rs)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    rs = rootof(n.iter)
                    if rs:
                        ch |= bind(n.target, rs)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    pass

        def eff_roots(x, line):
            rs = rootof(x)
            out = set()
            for r in rs:
                base = x
                while isinstance(base, (ast.Attribute, ast.Subscript)):
                    base = base.value
                if isinstance(base, ast.Name) and base.id == r and r in rebound_line and line > rebound_line[r]:
                    continue
                out.add(r)
            return out

        def mark(x, why, line):
            for r in eff_roots(x, line):
                e.mut.setdefault(r, f"{why} at line {line}")

        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                flat = []
                for t in ts:
                    flat += [y for y in ast.walk(t) if isinstance(y, (ast.Attribute, ast.Subscript, ast.Name)) and isinstance(getattr(y, "ctx", None), (ast.Store, ast.Del))]
                for t in flat:
                    if isinstance(t, ast.Subscript):
                        mark(t.value, "item assignment", n.lineno)
                        # element store into self.attr
                        b = t.value
                        while isinstance(b, (ast.Subscript,)):
                            b = b.value
                        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self":
                            e.selfst.add(b.attr)
                    elif isinstance(t, ast.Attribute):
                        for r in eff_roots(t.value, n.lineno):
                            e.attrst.setdefault((r, t.attr), f"line {n.lineno}")
                        if isinstance(t.value, ast.Name) and t.value.id == "self":
                            e.selfst.add(t.attr)
                    elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                        rs = roots.get(t.id, set())
                        for r in rs:
                            if (sorts.get(r) in ("array", "list") or sorts.get(r) == "sparse" and isinstance(n.op, (ast.Mult, ast.Div))) and not (r in rebound_line and n.lineno > rebound_line[r] and t.id == r):
                                e.mut.setdefault(r, f"augmented assignment at line {n.lineno}")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                e.reads.add(n.attr)
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS:
                    mark(fn.value, f".{fn.attr}()", n.lineno)
                    b = fn.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self":
                        e.selfst.add(b.attr)
                for kw in n.keywords:
                    if kw.arg == "out":
                        mark(kw.value, "out=", n.lineno)
                targets = []
                if isinstance(fn, ast.Name):
                    r = repo.resolve(mod, fn.id)
                    if r and r[0] == "func":
                        targets = [(r[1], None)]
                    elif r and r[0] == "class":
                        iq = repo.method(r[1], "__init__")
                        if iq:
                            targets = [(iq, "new")]
                elif isinstance(fn, ast.Attribute):
                    if isinstance(fn.value, ast.Name) and fn.value.id == "self" and cls is not None:
                        mq = repo.method(cls, fn.attr)
                        targets = [(mq, fn.value)] if mq else []
                        if mq:
                            for q2 in repo.by_method.get(fn.attr, []):
                                c2 = repo.owner[q2][1]
                                if c2 is not cls and cls in repo.mro(c2):
                                    targets.append((q2, fn.value))
                    elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and cls is not None:
                        for k2 in repo.mro(cls)[1:]:
                            if fn.attr in k2.methods:
                                targets = [(f"{k2.qual}.{fn.attr}", ast.Name(id="self", ctx=ast.Load()))]
                                break
                    elif fn.attr in repo.by_method and fn.attr not in ("copy",):
                        targets = [(q2, fn.value) for q2 in repo.by_method[fn.attr]]
                    elif isinstance(fn.value, ast.Name):
                        r = repo.resolve(mod, fn.value.id)
                        if r and r[0] == "repomod" and fn.attr in repo.mods[r[1]].funcs:
                            targets = [(f"{r[1]}.{fn.attr}", None)]
                for (tq, recv) in targets:
                    tf = repo.funcs[tq]
                    pn = [a.arg for a in tf.args.posonlyargs + tf.args.args]
                    am = {}
                    pos = pn
                    if repo.owner[tq][1] is not None and pn and pn[0] == "self":
                        pos = pn[1:]
                        if recv is not None and recv != "new":
                            am["self"] = eff_roots(recv, n.lineno)
                    for i2, a in enumerate(n.args):
                        if isinstance(a, ast.Starred):
                            for pp in pos[i2:]:
                                am.setdefault(pp, set()).update(eff_roots(a.value, n.lineno))
                            break
                        if i2 < len(pos):
                            am[pos[i2]] = eff_roots(a, n.lineno)
                        elif tf.args.vararg:
                            am.setdefault(tf.args.vararg.arg, set()).update(eff_roots(a, n.lineno))
                    for kw in n.keywords:
                        if kw.arg:
                            am[kw.arg] = eff_roots(kw.value, n.lineno)
                    e.calls.append((tq, am))
        return e
