"""Whole-program name, call and binding rules (P20, P28), decided on the syntax trees of the working tree alone.

Every rule reports only what is certain from the text: a name no scope defines, a call whose callee is resolved to exactly one function of the repository (or of its
native extensions) and whose arguments cannot bind to it, an unpacking whose number of targets the callee can never return.  Whatever is not resolved is left alone."""
from __future__ import annotations
import ast
import builtins
import re
import symtable
from .oblig import rule

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__class__"}


class Tree:
    """the unmodified syntax trees (repo.py rewrites some chains in place)"""
    def __init__(self, cur):
        self.cur = cur
        self.src = {}
        for n, m in cur.mods.items():
            if m.path.endswith(".py"):
                s = open(m.path, encoding="utf-8").read()
                self.src[n] = (s, ast.parse(s, m.path))


def tree(ob):
    t = getattr(ob.cur, "_lint_tree", None)
    if t is None:
        t = ob.cur._lint_tree = Tree(ob.cur)
    return t


def module_names(cur, mod, depth=0):
    """names a module's global scope may hold, or None when that is not known"""
    out = set()
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Global):
            out |= set(x.names)
    def scan(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            if isinstance(s, ast.Import):
                out.update((a.asname or a.name.split(".")[0]) for a in s.names)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name != "*":
                        out.add(a.asname or a.name)
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list):
                    scan(b)
            for h in getattr(s, "handlers", []):
                scan(h.body)
    scan(mod.tree.body)
    for s in mod.stars:
        last = s.split(".")[-1]
        if last not in cur.mods or depth > 6:
            return None
        sub = module_names(cur, cur.mods[last], depth + 1)
        if sub is None:
            return None
        out |= {x for x in sub if not x.startswith("_")}
    return out


@rule("P28")
def names(ob):
    """every name read in a function is defined by an enclosing scope, the module, its imports or the language"""
    cur = ob.cur
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        glob = module_names(cur, mod)
        if glob is None:
            ob.dunno("defined-name", f"{n}: star import of an unknown module")
            continue
        top = symtable.symtable(src, mod.path, "exec")

        def walk(t):
            if t.get_type() == "function" or t.get_type() == "class":
                for s in t.get_symbols():
                    if s.is_referenced() and s.is_global() and s.get_name() not in glob and s.get_name() not in BUILTIN:
                        nm = s.get_name()
                        line = next((x.lineno for x in ast.walk(tr) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and x.lineno >= t.get_lineno()), t.get_lineno())
                        ob.fail("defined-name", f"{n}.{t.get_name()}.{nm}", n, line, f"{n}.{t.get_name()} reads '{nm}', which no scope defines")
                ob.ok("defined-name", f"{n}.{t.get_name()}: every name it reads is defined in some scope")
            for c in t.get_children():
                walk(c)
        walk(top)
        # from .x import y : y exists in x
        for s in ast.walk(tr):
            if isinstance(s, ast.ImportFrom) and (s.level > 0 or (s.module or "").startswith("mssm")):
                last = (s.module or "").split(".")[-1]
                if last in cur.mods and cur.mods[last].path.endswith(".py"):
                    g = module_names(cur, cur.mods[last])
                    if g is None:
                        continue
                    for a in s.names:
                        if a.name != "*" and a.name not in g:
                            ob.fail("import", f"{n}:{last}.{a.name}", n, s.lineno, f"{n} imports '{a.name}' from {last}, which does not define it")
                        else:
                            ob.ok("import", f"{n}: {last}.{a.name} exists")


# ---------------------------------------------------------------------------- calls
def functions(tr, name):
    """(qualified name, class node, function node) of module level functions and methods"""
    for s in ast.walk(tr):
        if isinstance(s, ast.ClassDef) and s in tr.body:
            for f in s.body:
                if isinstance(f, ast.FunctionDef):
                    yield f"{name}.{s.name}.{f.name}", s, f
    for f in tr.body:
        if isinstance(f, ast.FunctionDef):
            yield f"{name}.{f.name}", None, f


def own(f):
    """nodes of a function in source order, including nested functions"""
    return ast.walk(f)


def locals_of(f):
    out = {p.arg for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
            out.add(x.name)
            if isinstance(x, ast.FunctionDef):
                out |= {p.arg for p in x.args.args + x.args.kwonlyargs}
        elif isinstance(x, ast.Lambda):
            out |= {p.arg for p in x.args.args}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


def fits(call, f, skip):
    """None if the call can bind to f (first `skip` parameters supplied implicitly), else why not"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    a = f.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if npos > len(pos) and a.vararg is None:
        return f"{npos} positional arguments for {len(pos)} parameters"
    if a.kwarg is None:
        for k in kws:
            if k not in pos and k not in [p.arg for p in a.kwonlyargs]:
                return f"unknown keyword '{k}'"
    first = next((i for i, x in enumerate(call.args) if isinstance(x, ast.Starred)), npos)
    for k in kws:
        if k in pos[:first]:
            return f"parameter '{k}' given twice"
    if star:
        return None
    nd = len(a.defaults)
    req = [p.arg for p in a.posonlyargs + a.args]
    req = req[:len(req) - nd][skip:]
    miss = [p for p in req[npos:] if p not in kws]
    miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kws]
    if miss:
        return f"no value for parameter '{miss[0]}'"
    return None


def dataclass_fits(call, c, cur):
    fields = []
    for k in reversed(cur.mro(c)):
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields = [x for x in fields if x[0] != s.target.id] + [(s.target.id, s.value is not None)]
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    nm = [x[0] for x in fields]
    if len(call.args) > len(nm):
        return f"{len(call.args)} values for {len(nm)} fields"
    for k in call.keywords:
        if k.arg not in nm:
            return f"unknown field '{k.arg}'"
        if k.arg in nm[:len(call.args)]:
            return f"field '{k.arg}' given twice"
    miss = [x for x, d in fields[len(call.args):] if not d and x not in [k.arg for k in call.keywords]]
    return f"no value for field '{miss[0]}'" if miss else None


def external(cur, c):
    """does the class inherit from something outside of the repository"""
    for k in cur.mro(c):
        for b in k.bases:
            if b not in ("ABC", "object", "Enum", "ABCMeta") and cur.find_class(b, k.mod) is None:
                return True
        if k.node.keywords and any(ast.unparse(x.value).split(".")[-1] != "ABCMeta" for x in k.node.keywords):
            return True
        if "__getattr__" in k.methods or "__getattribute__" in k.methods or "__setattr__" in k.methods or "__call__" in k.methods:
            return True
    return False


def decorated(f):
    return [ast.unparse(d) for d in f.decorator_list]


def callee(cur, mod, clsnode, f, loc, call):
    """(kind, function node or class, implicit parameters, name) of a resolved call, or None"""
    fn = call.func
    if isinstance(fn, ast.Name) and fn.id not in loc:
        r = cur.resolve(mod, fn.id)
        if r is None:
            return None
        if r[0] == "func":
            g = cur.funcs[r[1]]
            return None if decorated(g) or r[1].startswith("cpp_") else ("func", g, 0, r[1])
        if r[0] == "class":
            return klass(cur, r[1])
        return None
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name) and v.id == "self" and clsnode is not None and f.args.args and f.args.args[0].arg == "self":
            c = mod.classes.get(clsnode.name)
            if c is None or external(cur, c):
                return None
            nm = fn.attr
            # the method may be overridden in a subclass: only private (mangled) ones and classes without subclasses are exact
            q = cur.method(c, nm)
            if q is None:
                return None
            subs = [k for m in cur.mods.values() for k in m.classes.values() if k is not c and c in cur.mro(k)]
            if not nm.startswith("__") and any(nm in k.methods for k in subs):
                return None
            if any(nm in {t.attr for x in ast.walk(k.node) for t in ([x] if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) else [])} for k in cur.mro(c) + subs):
                return None
            g = cur.funcs[q]
            d = decorated(g)
            if d and d not in (["staticmethod"], ["abstractmethod"]):
                return None
            return ("method", g, 0 if d == ["staticmethod"] else 1, q)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and clsnode is not None and not v.args:
            c = mod.classes.get(clsnode.name)
            if c is None or external(cur, c):
                return None
            for k in cur.mro(c)[1:]:
                if fn.attr in k.methods:
                    g = k.methods[fn.attr]
                    return None if [x for x in decorated(g) if x != "abstractmethod"] else ("method", g, 1, f"{k.qual}.{fn.attr}")
            return None
        # a method name only one class of the repository defines, called on something that is not of a library type
    return None


def klass(cur, c):
    if external(cur, c) or c.is_enum:
        return None
    q = cur.method(c, "__init__")
    if q is not None:
        return ("class", cur.funcs[q], 1, c.qual)
    if c.is_dataclass:
        return ("dataclass", c, 0, c.qual)
    return ("plain", c, 0, c.qual)


@rule("P28")
def calls(ob):
    """arguments of every resolved call bind to the parameters of what is called"""
    cur = ob.cur
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)
            for x in own(f):
                if not isinstance(x, ast.Call):
                    continue
                r = callee(cur, mod, cn, f, loc, x)
                if r is None:
                    continue
                kind, g, skip, nm = r
                why = dataclass_fits(x, g, cur) if kind == "dataclass" else None if kind == "plain" else fits(x, g, skip)
                if why:
                    ob.fail("call", f"{q}->{nm}:{why}", q, x.lineno, f"{q} calls {nm} with {why}")
                else:
                    ob.ok("call", f"{q}: call of {nm} at line {x.lineno} binds")
    ob.atleast("call", 100)


def tuple_returns(f):
    """set of tuple sizes a function returns, None in it for what is not known"""
    out, todo = set(), list(f.body)
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
        return {None}
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, ast.Return):
            v = x.value
            if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
                out.add(len(v.elts))
            elif v is None or (isinstance(v, ast.Constant) and v.value is None):
                out.add(0)
            else:
                out.add(None)
        todo += list(ast.iter_child_nodes(x))
    return out or {None}


def unpackings(f):
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)) and isinstance(x.value, ast.Call):
            el = x.targets[0].elts
            if not any(isinstance(e, ast.Starred) for e in el):
                yield x, len(el), x.value


@rule("P28")
def unpack(ob):
    """a call whose result is unpacked returns that many values on some path"""
    cur = ob.cur
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)
            for x, k, call in unpackings(f):
                r = callee(cur, mod, cn, f, loc, call)
                if r is None or r[0] not in ("func", "method"):
                    continue
                ks = tuple_returns(r[1])
                if None in ks:
                    continue
                if k not in ks:
                    ob.fail("unpack", f"{q}->{r[3]}", q, x.lineno, f"{q} unpacks {k} values from {r[3]}, which returns {sorted(ks)}")
                else:
                    ob.ok("unpack", f"{q}: {k} values from {r[3]}")
    ob.atleast("unpack", 10)


@rule("P28")
def unraised(ob):
    """an exception object is raised, a warning is issued"""
    cur = ob.cur
    T = tree(ob)
    exc = {k for k in dir(builtins) if isinstance(getattr(builtins, k), type) and issubclass(getattr(builtins, k), BaseException)}
    for n, (src, tr) in T.src.items():
        for q, cn, f in functions(tr, n):
            for x in own(f):
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in exc:
                    ob.fail("raised", f"{q}:{x.value.func.id}", q, x.lineno, f"{q} builds a {x.value.func.id} without raising it")
                if isinstance(x, ast.Raise):
                    v = x.exc
                    if isinstance(v, ast.Call) and ast.unparse(v.func) in ("warnings.warn", "print") or isinstance(v, ast.Constant):
                        ob.fail("raised", f"{q}:{ast.unparse(v)[:40]}", q, x.lineno, f"{q} raises something that is not an exception")
                    else:
                        ob.ok("raised", f"{q} line {x.lineno}")
    ob.atleast("raised", 10)


@rule("P28")
def attributes(ob):
    """an attribute of self that is read is stored or defined somewhere for that class"""
    cur = ob.cur
    T = tree(ob)
    anywhere = set()
    for n, (src, tr) in T.src.items():
        for x in ast.walk(tr):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                anywhere.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    anywhere.add(x.args[1].value)
                else:
                    ob.dunno("attribute", f"{n}: setattr with a computed name")
                    return
    for m in cur.mods.values():
        for c in m.classes.values():
            anywhere |= set(c.methods) | set(c.attrs) | {x for x, _ in c.fields}
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            if cn is None or not f.args.args or f.args.args[0].arg != "self" or cn.name not in mod.classes or external(cur, mod.classes[cn.name]):
                continue
            for x in own(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self" and not x.attr.startswith("__"):
                    if x.attr in anywhere or hasattr(object, x.attr):
                        ob.ok("attribute", f"{q}: self.{x.attr}")
                    else:
                        ob.fail("attribute", f"{q}:self.{x.attr}", q, x.lineno, f"{q} reads self.{x.attr}, which nothing stores or defines")
    # members of enumerations and attributes of repository modules
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)
            for x in own(f):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id not in loc:
                    r = cur.resolve(mod, x.value.id)
                    if r and r[0] == "class" and r[1].is_enum and isinstance(x.ctx, ast.Load):
                        if x.attr in {a for a, _ in r[1].fields} | set(r[1].methods) or x.attr.startswith("_"):
                            ob.ok("member", f"{q}: {x.value.id}.{x.attr}")
                        else:
                            ob.fail("member", f"{q}:{x.value.id}.{x.attr}", q, x.lineno, f"{q} uses {x.value.id}.{x.attr}, which is not a member")


# ---------------------------------------------------------------------------- reaching definitions
def _targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


@rule("P28")
def unbound(ob):
    """no local variable is read where no definition of it can reach"""
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        for q, cn, f in functions(tr, n):
            bad = Reach(f).bad
            for nm, line in bad:
                ob.fail("reaching-definition", f"{q}:{nm}", q, line, f"{q} reads local '{nm}' at line {line} where no definition can reach")
            if not bad:
                ob.ok("reaching-definition", q)


class Reach:
    """names that may be bound, forwards over the structured control flow (over-approximated)"""
    def __init__(self, f):
        self.bad = []
        a = f.args
        params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
        decl = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                decl |= set(x.names)
        # locals of this function only (nested scopes excluded)
        self.loc = set()
        todo = list(f.body)
        self.nested = set()
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.loc.add(x.name)
                self.nested |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # walrus targets inside comprehensions belong to this scope
                self.loc |= {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                self.loc.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                self.loc.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                self.loc |= {(z.asname or z.name).split(".")[0] for z in x.names}
            todo += list(ast.iter_child_nodes(x))
        self.loc -= decl
        if any(isinstance(x, ast.Match) for x in ast.walk(f)):
            return
        self.block(f.body, set(params))

    def use(self, e, st):
        if e is None:
            return
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = set()
                for g in x.generators:
                    inner |= _targets(g.target)
                self.use_comp(x, st | inner)
                continue
            if isinstance(x, ast.NamedExpr):
                st.add(x.target.id)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc and x.id not in st:
                self.bad.append((x.id, x.lineno))
                st.add(x.id)
            todo += list(ast.iter_child_nodes(x))

    def use_comp(self, c, st):
        self.use(c.generators[0].iter, st)
        for i, g in enumerate(c.generators):
            if i:
                self.use(g.iter, st)
            for t in g.ifs:
                self.use(t, st)
        if isinstance(c, ast.DictComp):
            self.use(c.key, st)
            self.use(c.value, st)
        else:
            self.use(c.elt, st)

    def block(self, body, st):
        """state after the block, None if control never leaves it at the end"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d, st)
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {(z.asname or z.name).split(".")[0] for z in s.names}
        elif isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use(t, st)
                st |= _targets(t)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.loc and s.target.id not in st:
                    self.bad.append((s.target.id, s.lineno))
                st.add(s.target.id)
            else:
                self.use(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            self.use(s.value, st)
            if s.value is not None:
                self.use(s.target, st)
                st |= _targets(s.target)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.use(e, st)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.exits.append(set(st)) if getattr(self, "exits", None) is not None else None
            return None
        elif isinstance(s, ast.If):
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.use(s.iter, st)
            # names bound anywhere in the loop may be bound by an earlier pass
            inner = set(st)
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        inner.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        inner.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        inner |= {(z.asname or z.name).split(".")[0] for z in x.names}
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        inner.add(x.name)
            if isinstance(s, ast.For):
                inner |= _targets(s.target)
            else:
                inner |= {x.target.id for x in ast.walk(s.test) if isinstance(x, ast.NamedExpr)}
                self.use(s.test, inner)
            self.block(s.body, set(inner))
            out = set(inner)
            r = self.block(s.orelse, set(out))
            return self.join(out, r)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st |= _targets(i.optional_vars)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try):
            st0 = set(st)
            part = set(st)
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        part.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        part |= {(z.asname or z.name).split(".")[0] for z in x.names}
            r = self.block(s.body, st0)
            if r is not None:
                r = self.block(s.orelse, r)
            rs = [r]
            for h in s.handlers:
                hs = set(part)
                if h.name:
                    hs.add(h.name)
                rs.append(self.block(h.body, hs))
            out = self.join(*rs)
            if s.finalbody:
                fin = self.block(s.finalbody, self.join(out, part))
                return None if fin is None or out is None else out | fin
            return out
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, st)
        else:
            for e in ast.iter_child_nodes(s):
                self.use(e, st)
        return st


# ---------------------------------------------------------------------------- native bindings (P20)
def extensions(cur):
    """extension module -> {python name: (C++ signature, declared argument names)}; None where a file was not read"""
    out, loose, hub = {}, {}, None
    for fn, P in cur.cpp.items():
        b = {}
        for py, (f, args) in P.bind.items():
            b[py] = (P.funcs.get(f), args)
        if P.module:
            out.setdefault(P.module, {}).update(b)
            if P.inits:
                hub = P.module
        else:
            loose.update(b)
    if loose:
        if hub is None:
            return None
        out[hub].update(loose)
    return out


def tmpl_args(t):
    """template arguments of a C++ type spelled without spaces"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return None
    out, d, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def starred_len(cur, mod, e):
    """number of values a starred call supplies"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        r = cur.resolve(mod, e.func.id)
        if r and r[0] == "func":
            ks = tuple_returns(cur.funcs[r[1]])
            if len(ks) == 1 and None not in ks:
                return ks.pop()
    if isinstance(e, (ast.Tuple, ast.List)):
        return len(e.elts)
    return None


@rule("P20")
def native(ob):
    """calls into the extensions: registered name, argument count and keywords, number of results"""
    cur = ob.cur
    T = tree(ob)
    if any("" in v for v in cur.cpp_failed.values()):
        ob.dunno("binding", "a C++ source is outside the subset that is read")
        return
    ext = extensions(cur)
    if ext is None:
        ob.dunno("binding", "bindings without a module")
        return
    for fn, P in cur.cpp.items():
        for py, (f, args) in P.bind.items():
            s = P.funcs.get(f)
            if s is None:
                ob.dunno("binding", f"{fn}: {py} is bound to {f}, which is not a function of the file")
            elif args and len(args) != len(s.params):
                ob.fail("binding", f"{fn}:{py}", "cpp_" + fn[:-4], s.line, f"{fn}: binding of {py} names {len(args)} arguments, {f} takes {len(s.params)}")
            else:
                ob.ok("binding", f"{fn}: {py} -> {f}")
    sizes = {}

    def results(s):
        if s is None:
            return None
        r = s.ret if hasattr(s, "ret") else None
        if r is None:
            return None
        r = r.replace("std::", "").replace(" ", "")
        if r.startswith(("tuple<", "pair<")):
            return len(tmpl_args(r))
        return None
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)

            def target(call):
                fn = call.func
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id not in loc:
                    r = cur.resolve(mod, fn.value.id)
                    if r and r[0] == "lib" and r[1] in ext:
                        return r[1], fn.attr
                elif isinstance(fn, ast.Name) and fn.id not in loc:
                    r = cur.resolve(mod, fn.id)
                    if r and r[0] == "lib" and r[1].split(".")[0] in ext and r[1].count(".") == 1:
                        return tuple(r[1].split("."))
                return None
            for x in own(f):
                if not isinstance(x, ast.Call):
                    continue
                t = target(x)
                if t is None:
                    continue
                m, nm = t
                if nm not in ext[m]:
                    ob.fail("native-name", f"{q}->{m}.{nm}", q, x.lineno, f"{q} calls {m}.{nm}, which the extension does not register")
                    continue
                s, args = ext[m][nm]
                if s is None:
                    continue
                npos = 0
                for a in x.args:
                    if isinstance(a, ast.Starred):
                        k = starred_len(cur, mod, a.value)
                        npos = None if k is None or npos is None else npos + k
                    elif npos is not None:
                        npos += 1
                if npos is None or any(k.arg is None for k in x.keywords) or any(nm in P.optional for P in cur.cpp.values()):
                    ob.dunno("native-call", f"{q}: arguments of {m}.{nm} not counted")
                    continue
                bad = [k.arg for k in x.keywords if k.arg not in args]
                if bad:
                    ob.fail("native-call", f"{q}->{m}.{nm}:{bad[0]}", q, x.lineno, f"{q} passes keyword '{bad[0]}' to {m}.{nm}, which does not name it")
                elif npos + len(x.keywords) != len(s.params):
                    ob.fail("native-call", f"{q}->{m}.{nm}", q, x.lineno, f"{q} passes {npos + len(x.keywords)} arguments to {m}.{nm}, which takes {len(s.params)}")
                else:
                    ob.ok("native-call", f"{q}: {m}.{nm} takes {len(s.params)}")
            for x, k, call in unpackings(f):
                t = target(call)
                if t and t[1] in ext[t[0]]:
                    r = results(ext[t[0]][t[1]][0])
                    if r is None:
                        continue
                    if r != k:
                        ob.fail("native-results", f"{q}->{t[1]}", q, x.lineno, f"{q} unpacks {k} results of {t[0]}.{t[1]}, which returns {r}")
                    else:
                        ob.ok("native-results", f"{q}: {k} results of {t[1]}")
            # a wrapper that returns the native result as is: remembered for its callers
            rs = [y.value for y in ast.walk(f) if isinstance(y, ast.Return)]
            if rs and all(isinstance(v, ast.Call) and target(v) for v in rs) and cn is None:
                ks = {results(ext[target(v)[0]].get(target(v)[1], (None, None))[0]) for v in rs}
                if len(ks) == 1 and None not in ks:
                    sizes[q] = ks.pop()
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)
            for x, k, call in unpackings(f):
                r = callee(cur, mod, cn, f, loc, call)
                if r and r[3] in sizes:
                    if sizes[r[3]] != k:
                        ob.fail("native-results", f"{q}->{r[3]}", q, x.lineno, f"{q} unpacks {k} results of {r[3]}, which returns {sizes[r[3]]}")
                    else:
                        ob.ok("native-results", f"{q}: {k} results of {r[3]}")
    ob.atleast("native-call", 10)


# ---------------------------------------------------------------------------- seeds (P15)
GEN = {"default_rng", "Generator", "RandomState", "SeedSequence", "PCG64", "MT19937", "BitGenerator", "Philox"}
NODRAW = {"estimateVp": ("grid_type", "JJJ1")}
SEEDS = {"seed", "chain_seed", "random_state", "rng", "np_gen", "series_seed"}


def _params(f):
    return [p.arg for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]


def _depends(f, roots):
    """names of f whose value may depend on one of the roots (flow-insensitive)"""
    dep = set(roots)
    pairs = []
    for x in ast.walk(f):
        if isinstance(x, ast.Assign):
            ts = set().union(*[{y.id for y in ast.walk(t) if isinstance(y, ast.Name)} for t in x.targets])
            pairs.append((ts, {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}))
        elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None:
            pairs.append(({y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}, {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}))
        elif isinstance(x, (ast.For, ast.comprehension)):
            pairs.append((_targets(x.target), {y.id for y in ast.walk(x.iter) if isinstance(y, ast.Name)}))
        elif isinstance(x, ast.NamedExpr):
            pairs.append(({x.target.id}, {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}))
        elif isinstance(x, ast.FunctionDef) and x is not f:
            pairs.append(({x.name}, {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} - set(_params(x))))
    more = True
    while more:
        more = False
        for ts, us in pairs:
            if us & dep and not ts <= dep:
                dep |= ts
                more = True
    return dep


def _scopes(f):
    """(function node, chain of enclosing function nodes) for f and the functions nested in it"""
    out = []

    def go(g, chain):
        out.append((g, chain))
        todo = list(g.body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.FunctionDef):
                go(x, chain + [g])
                continue
            todo += list(ast.iter_child_nodes(x))
    go(f, [])
    return out


def _own_nodes(g):
    todo = list(g.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.FunctionDef):
            continue
        yield x
        todo += list(ast.iter_child_nodes(x))


@rule("P15")
def seeded(ob):
    """draws come from a generator that depends on the seed parameter, and seeds are handed on"""
    cur = ob.cur
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        mod = cur.mods[n]
        for q, cn, f in functions(tr, n):
            loc = locals_of(f)
            for g, chain in _scopes(f):
                # the innermost function that has a seed of its own decides
                owner = next((h for h in [g] + chain[::-1] if set(_params(h)) & SEEDS), None)
                roots = set(_params(owner)) & SEEDS if owner is not None else set()
                dep = _depends(f, roots) if owner is not None else set()

                def from_seed(e):
                    return any(isinstance(y, ast.Name) and y.id in dep for y in ast.walk(e)) or any(isinstance(y, ast.Attribute) and y.attr in SEEDS for y in ast.walk(e))
                for x in _own_nodes(g):
                    if not isinstance(x, ast.Call):
                        continue
                    fn = ast.unparse(x.func) if isinstance(x.func, (ast.Attribute, ast.Name)) else ""
                    base = fn.split(".")[0]
                    r = cur.resolve(mod, base) if base and base not in loc else None
                    lib = ".".join([r[1]] + fn.split(".")[1:]) if r and r[0] == "lib" else ""
                    if any(k.arg is None for k in x.keywords):
                        continue
                    if lib.startswith("np.random.") and lib.split(".")[2] not in GEN:
                        if owner is not None:
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} draws from the global random state ({lib}) although it accepts a seed")
                        elif n != "repara":
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} draws from the global random state ({lib})")
                        continue
                    if lib.startswith("random.") and lib.count(".") == 1 and lib.split(".")[1] not in ("Random", "SystemRandom"):
                        ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} draws from the global random state ({lib})")
                        continue
                    if lib.startswith("np.random.") and lib.split(".")[2] in ("default_rng", "RandomState"):
                        e = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "seed"), None)
                        if e is None or (isinstance(e, ast.Constant) and e.value is None):
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} creates a generator without a seed")
                        elif owner is not None and not from_seed(e):
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} creates a generator from '{ast.unparse(e)}', which does not depend on its seed")
                        else:
                            ob.ok("seeded-draw", f"{q}: generator from {ast.unparse(e)}")
                        continue
                    if lib.startswith("scp.stats.") and lib.endswith(".rvs"):
                        e = next((k.value for k in x.keywords if k.arg == "random_state"), None)
                        if e is None and len(x.args) > 3:
                            continue
                        if e is None or (isinstance(e, ast.Constant) and e.value is None):
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} draws with {lib} from the global random state")
                        elif owner is not None and not from_seed(e):
                            ob.fail("seeded-draw", f"{q}:{lib}", q, x.lineno, f"{q} draws with {lib} from '{ast.unparse(e)}', which does not depend on its seed")
                        else:
                            ob.ok("seeded-draw", f"{q}: {lib} from {ast.unparse(e)}")
                        continue
                    # seeds are handed on
                    if owner is None or "seed" not in roots or lib:
                        continue
                    c = callee(cur, mod, cn, f, loc, x)
                    if c is not None and c[0] in ("func", "method"):
                        tg, skip, nm = c[1], c[2], c[3]
                    elif isinstance(x.func, ast.Attribute) and not lib:
                        qs = cur.by_method.get(x.func.attr, [])
                        if not qs or not all("seed" in _params(cur.funcs[z]) for z in qs):
                            continue
                        tg, skip, nm = cur.funcs[qs[0]], 1, qs[0]
                        if any(k.arg == "random_state" for k in x.keywords):
                            continue
                    else:
                        continue
                    ps = _params(tg)[skip:]
                    if "seed" not in ps:
                        continue
                    e = next((k.value for k in x.keywords if k.arg == "seed"), None)
                    if e is None and not any(isinstance(y, ast.Starred) for y in x.args):
                        i = ps.index("seed")
                        pos = [p.arg for p in tg.args.posonlyargs + tg.args.args][skip:]
                        if "seed" in pos and pos.index("seed") < len(x.args):
                            e = x.args[pos.index("seed")]
                    if e is None:
                        if any(isinstance(y, ast.Starred) for y in x.args) and tg.args.vararg is None:
                            continue
                        if nm.split(".")[-1] in NODRAW:
                            # with this option the callee returns before it draws
                            p, v = NODRAW[nm.split(".")[-1]]
                            d = dict(zip(reversed(_params(tg)), reversed(tg.args.defaults))) if not tg.args.kwonlyargs else {}
                            got = next((k.value for k in x.keywords if k.arg == p), d.get(p))
                            if isinstance(got, ast.Constant) and got.value == v:
                                ob.ok("seed-forwarded", f"{q} -> {nm}: no draws with {p}={v!r}")
                                continue
                        ob.fail("seed-forwarded", f"{q}->{nm}", q, x.lineno, f"{q} accepts a seed but calls {nm} without one")
                    elif not from_seed(e):
                        ob.fail("seed-forwarded", f"{q}->{nm}", q, x.lineno, f"{q} calls {nm} with seed '{ast.unparse(e)}', which does not depend on its own")
                    else:
                        ob.ok("seed-forwarded", f"{q} -> {nm}")
    ob.atleast("seeded-draw", 8)


ORDERFREE = {"sorted", "np.sort", "np.unique", "len", "set", "frozenset", "sum", "min", "max", "any", "all", "np.max", "np.min"}


def _is_set(e, names):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference"):
            return _is_set(e.func.value, names)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return _is_set(e.left, names) or _is_set(e.right, names)
    return False


@rule("P18", "P15")
def set_order(ob):
    """what a function hands on never depends on the iteration order of a set (which differs between processes for strings)"""
    T = tree(ob)
    for n, (src, tr) in T.src.items():
        for q, cn, f in functions(tr, n):
            asg = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    asg.setdefault(x.targets[0].id, []).append(x.value)
            names = set()
            for _ in range(3):
                names |= {k for k, vs in asg.items() if all(_is_set(v, names) for v in vs)}
            par = {}
            for x in ast.walk(f):
                for c in ast.iter_child_nodes(x):
                    par[c] = x
            bad = False
            for x in ast.walk(f):
                if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate") and len(x.args) == 1 and _is_set(x.args[0], names)):
                    continue
                p, sorts = x, False
                while p in par and not isinstance(p, ast.stmt):
                    p = par[p]
                    if isinstance(p, ast.Call) and ast.unparse(p.func) in ORDERFREE:
                        sorts = True
                if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                    v = p.targets[0].id
                    for y in ast.walk(f):
                        if isinstance(y, ast.Call) and (ast.unparse(y.func) in ORDERFREE and any(isinstance(z, ast.Name) and z.id == v for z in y.args) or isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and ast.unparse(y.func.value) == v):
                            sorts = True
                flows = isinstance(p, ast.Return) or x.func.id == "enumerate" or isinstance(p, ast.Assign) and any(
                    isinstance(y, ast.Return) and y.value is not None and any(isinstance(z, ast.Name) and z.id == ast.unparse(p.targets[0]) for z in ast.walk(y.value)) for y in ast.walk(f))
                if flows and not sorts:
                    bad = True
                    ob.fail("set-order", f"{q}:{ast.unparse(x)}", q, x.lineno, f"{q} puts the elements of a set in the order the set happens to have ('{ast.unparse(x)}')")
            if not bad:
                ob.ok("set-order", f"{q}: no result in set order")


# ---- P16: queries leave the objects they were given alone -------------------------------------
from .repo import MUTATORS  # noqa: E402

HELD = ("ndarray", "csc_array", "csr_array", "list", "dict", "DataFrame")
QUERY = re.compile(r"^(models\..*\.(get_.*|predict|predict_diff|sample_post|print_.*)|formula\.Formula\.(get_.*|has_ir_terms|encode_data)|formula\.build_(model_matrix|sparse_matrix.*)|compare\..*|smooths\..*|repara\..*"
                   r"|utils\.(?!.*Prior).*|exp_fam\..*\.(llk|lp|lps|gradient|hessian|D|V|dVy1|deviance|d1.*|d2.*|dydtheta.*|predict|rvs|get_resid|cdf|get_.*)|exp_fam\..*\.(f|fi|dy1|dy2)"
                   r"|hsmm\.HSMMFamily\.(decode_viterbi|sample_posterior_states|get_resid|predict|compute_Tpi|compute_od_probs|llk|gradient))$")


def _holders(T):
    """attributes that hold arrays, sparse matrices, lists, dictionaries or frames wherever they are declared"""
    kinds = {}
    for n, (src, tr) in T.src.items():
        for x in ast.walk(tr):
            if isinstance(x, ast.AnnAssign):
                t = x.target
                nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                if nm:
                    kinds.setdefault(nm, set()).add(_held(ast.unparse(x.annotation)))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and isinstance(x.value, (ast.List, ast.Dict, ast.ListComp)):
                        kinds.setdefault(t.attr, set()).add(True)
                    elif isinstance(t, ast.Attribute) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, (int, float, str, bool)):
                        kinds.setdefault(t.attr, set()).add(False)
    return {k for k, v in kinds.items() if v == {True}}


def _held(ann):
    parts = [p.strip().split("[")[0].split(".")[-1] for p in re.sub(r"\[[^\[\]]*\]", "", re.sub(r"\[[^\[\]]*\]", "", ann)).split("|")]
    parts = [p for p in parts if p != "None"]
    return bool(parts) and all(p in HELD for p in parts)


class _Alias:
    def __init__(self, f, held):
        self.held, self.hits, self.n = held, [], 0
        a = f.args
        self.params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        self.block(f.body, {})

    def path(self, e, env):
        """(paths, is an element) of objects the expression may be, reached from a parameter by attributes"""
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return frozenset([(e.id, False)]) if e.id in self.params else frozenset()
        if isinstance(e, ast.Attribute):
            return frozenset((f"{p}.{e.attr}", False) for p, _ in self.path(e.value, env))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, (ast.Name, ast.Constant)):
            return frozenset((f"{p}[]", True) for p, el in self.path(e.value, env) if not el and "." in p)
        if isinstance(e, ast.IfExp):
            return self.path(e.body, env) | self.path(e.orelse, env)
        return frozenset()

    def hit(self, e, env, line, how):
        self.n += 1
        for p, el in self.path(e, env):
            if "." in p and not el and p.split(".")[-1] in self.held:
                self.hits.append((p, line, how))

    def expr(self, e, env):
        for c in ast.walk(e):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in MUTATORS:
                self.hit(c.func.value, env, c.lineno, f".{c.func.attr}()")
            if isinstance(c, ast.Call):
                for k in c.keywords:
                    if k.arg == "out":
                        self.hit(k.value, env, c.lineno, "out=")

    def store(self, t, val, env, line):
        if isinstance(t, ast.Name):
            env[t.id] = self.path(val, env) if val is not None else frozenset()
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = val.elts if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.store(x, v, env, line)
        elif isinstance(t, ast.Subscript):
            self.hit(t.value, env, line, "[...] =")
        elif isinstance(t, ast.Starred):
            self.store(t.value, None, env, line)

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    @staticmethod
    def join(a, b):
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in {**a, **b}}

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return env
        if isinstance(s, ast.Assign):
            self.expr(s.value, env)
            new = dict(env)
            for t in s.targets:
                self.store(t, s.value, new, s.lineno)
            return new
        if isinstance(s, ast.AnnAssign):
            new = dict(env)
            if s.value is not None:
                self.store(s.target, s.value, new, s.lineno)
            return new
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.hit(t.value, env, s.lineno, "[...] " + type(s.op).__name__)
            else:
                if isinstance(t, ast.Name):
                    self.hit(t, env, s.lineno, "in-place " + type(s.op).__name__)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(t.value, env, s.lineno, "del")
            return env
        if isinstance(s, ast.If):
            self.expr(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.While)):
            e = dict(env)
            for _ in range(2):
                if isinstance(s, ast.For):
                    it = s.iter
                    src = frozenset((f"{p}[]", True) for p, el in self.path(it, e) if "." in p and not el)
                    if isinstance(s.target, ast.Name):
                        e[s.target.id] = src
                    else:
                        self.store(s.target, None, e, s.lineno)
                        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[1], ast.Name):
                            e[s.target.elts[1].id] = frozenset((f"{p}[]", True) for p, el in self.path(it.args[0], e) if "." in p and not el)
                else:
                    self.expr(s.test, e)
                e = self.join(e, self.block(s.body, dict(e)))
            return self.join(env, self.block(s.orelse, e) if s.orelse else e)
        if isinstance(s, ast.With):
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            e = self.block(s.body, dict(env))
            for h in s.handlers:
                e = self.join(e, self.block(h.body, self.join(env, e)))
            return self.block(s.finalbody, e)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        return env


@rule("P16")
def purity(ob):
    """a query never changes in place an array, matrix, list, dictionary or frame that it reaches through an attribute of what it was given"""
    T = tree(ob)
    held = _holders(T)
    for n, (src, tr) in T.src.items():
        for q, cn, f in functions(tr, n):
            if not QUERY.match(q):
                continue
            A = _Alias(f, held)
            seen = set()
            for p, line, how in A.hits:
                if (p, how) in seen:
                    continue
                seen.add((p, how))
                ob.fail("query-purity", f"{q}:{p}", q, line, f"{q} changes {p} in place ({how})")
            if not A.hits:
                ob.ok("query-purity", f"{q}: {A.n} in-place operations, none on held data")
    ob.atleast("query-purity", 60)


@rule("P21")
def sampled_durations(ob):
    """A run drawn from the duration table covers as many samples as the entry stands for.

    ds[k] is the probability of k+1 samples (the recursions in llk/decode/resid count that way). predict draws a value v_k = a + k,
    counts it down once per sample and draws the next state when it has fallen below c, which gives a + k - c + 1 samples."""
    kind = "duration-draw"
    q = "hsmm.HSMMFamily.predict"
    fn = ob.cur.funcs.get(q)
    if fn is None:
        return

    def const(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and const(e.operand) is not None:
            return -const(e.operand)
        return None

    vals = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            vals.setdefault(n.targets[0].id, []).append(n.value)
    draws = []
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "choice"):
            continue
        if not any(isinstance(x, ast.Name) and x.id == "ds" for k in n.value.keywords for x in ast.walk(k.value)):
            continue
        draws.append(n)
    if not draws:
        ob.dunno(kind, f"{q}: no draw from the duration table recognised")
        return
    seen = set()
    for n in draws:
        a, src = None, n.value.args[0] if n.value.args else None
        if isinstance(src, ast.Name) and len(vals.get(src.id, [])) == 1:
            src = vals[src.id][0]
        while isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr in ("reshape", "flatten", "astype"):
            src = src.func.value
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "arange" and not src.keywords:
            a = 0 if len(src.args) == 1 else const(src.args[0]) if len(src.args) == 2 else None
        v = n.targets[0].id if isinstance(n.targets[0], ast.Name) else None
        lim = set()
        for c in ast.walk(fn):
            if isinstance(c, ast.If) and isinstance(c.test, ast.Compare) and isinstance(c.test.left, ast.Name) and c.test.left.id == v and len(c.test.ops) == 1 \
                    and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "choice" for s in c.body for x in ast.walk(s)):
                k = const(c.test.comparators[0])
                op = c.test.ops[0]
                lim.add(None if k is None else k if isinstance(op, ast.Lt) else k + 1 if isinstance(op, (ast.LtE, ast.Eq)) else None)
        down = [s for s in ast.walk(fn) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == v and isinstance(s.op, ast.Sub) and const(s.value) == 1]
        if a is None or len(lim) != 1 or None in lim or len(down) != 1:
            ob.dunno(kind, f"{q}:{n.lineno}: the count-down of the drawn duration is not recognised")
            continue
        off = a - lim.pop()
        if off and off in seen:
            continue
        seen.add(off)
        if off == 0:
            ob.ok(kind, f"{q}:{n.lineno}: entry k of the duration table gives a run of k+1 samples")
        else:
            ob.fail(kind, f"{q}:{off:+d}", q, n.lineno, f"a run drawn from entry k of the duration table covers k{1 + off:+d} samples, the likelihood counts k+1")


@rule("P21")
def probability_ranks(ob):
    """The tables handed to the recursions have one axis for time exactly when the latent process varies over time.

    Ranks are propagated through _compute_series_probs for both values of tvdtpi, both branches of every other test."""
    kind = "table-rank"
    q = "hsmm._compute_series_probs"
    fn = ob.cur.funcs.get(q)
    if fn is None:
        return
    U = "?"

    def rank(e, env):
        """set of possible ranks of an expression (None: no array, U: not known)"""
        if isinstance(e, ast.Constant) and e.value is None:
            return {None}
        if isinstance(e, ast.Name):
            return set(env.get(e.id, {U}))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Attribute) and e.right.attr == "inf":
            return rank(e.left, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "np" and e.args:
            a0, fnm = e.args[0], e.func.attr
            if fnm in ("zeros", "ones", "empty", "full"):
                return {len(a0.elts)} if isinstance(a0, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in a0.elts) else {U}
            if fnm in ("log", "exp", "asfortranarray", "copy"):
                return rank(a0, env)
            if fnm == "stack":
                el = a0.elt if isinstance(a0, (ast.ListComp, ast.GeneratorExp)) else a0.elts[0] if isinstance(a0, (ast.List, ast.Tuple)) and a0.elts else None
                return {r + 1 if isinstance(r, int) else U for r in rank(el, env)} if el is not None else {U}
        return {U}

    def truth(t, tv):
        if isinstance(t, ast.Name) and t.id == "tvdtpi":
            return tv
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = truth(t.operand, tv)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, bool):
            r = truth(t.left, tv)
            return None if r is None else r == t.comparators[0].value
        return None

    rets = []

    def join(a, b):
        return {k: a.get(k, {U}) | b.get(k, {U}) for k in set(a) | set(b)}

    def go(body, env, tv):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        env = {**env, t.id: rank(s.value, env)}
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        env = {**env, **{x.id: {U} for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}}
            elif isinstance(s, ast.If):
                r = truth(s.test, tv)
                if r is not None:
                    env = go(s.body if r else s.orelse, env, tv)
                else:
                    env = join(go(s.body, env, tv), go(s.orelse, env, tv))
            elif isinstance(s, (ast.For, ast.While)):
                for _ in range(2):
                    env = join(env, go(s.body, env, tv))
            elif isinstance(s, ast.With):
                env = go(s.body, env, tv)
            elif isinstance(s, ast.Return):
                if isinstance(s.value, ast.Tuple) and len(s.value.elts) >= 2:
                    rets.append((tv, s.lineno, [(x.id if isinstance(x, ast.Name) else "", rank(x, env)) for x in s.value.elts]))
        return env

    for tv in (True, False):
        go(fn.body, {}, tv)
    for tv, line, items in rets:
        want = 3 if tv else 2
        for pos, name in ((-3, "durations"), (-2, "transitions")):
            rk = items[pos][1] - {None}
            if U in rk or not rk:
                ob.dunno(kind, f"{q}:{line}: rank of the table of {name} with tvdtpi={tv} is not decided")
            elif rk == {want}:
                ob.ok(kind, f"{q}:{line}: table of {name} has rank {want} with tvdtpi={tv}")
            else:
                ob.fail(kind, f"{q}:{name}:{tv}", q, line, f"the table of {name} can have rank {max(rk)} with tvdtpi={tv}, the recursions index rank {want}")
