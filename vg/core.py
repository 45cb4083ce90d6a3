"""Hash-consed value-graph nodes (gated SSA terms)."""
from __future__ import annotations
import time

EMPTY = frozenset()


ASORTS: dict = {}        # attribute name -> sort shared by both programs under comparison


class Node:
    __slots__ = ("op", "args", "attr", "id", "free", "dirty", "line")

    def __repr__(self):
        return show(self, 4)


_table: dict = {}
_count = [0]
cur_line = [0]


def reset():
    _table.clear()


# ops which need a state to be interpreted (references into the abstract store)
DIRTY = {"loc", "inst", "clo", "bm", "supr"}


deadline = [None]
_ticks = [0]


class Late(Exception):
    pass


def mk(op, args=(), attr=None):
    args = tuple(args)
    _ticks[0] += 1
    if deadline[0] is not None and not _ticks[0] & 2047 and time.time() > deadline[0]:
        deadline[0] = None
        raise Late()
    key = (op, tuple(a.id for a in args), attr)
    n = _table.get(key)
    if n is not None:
        return n
    if op == "map" and len(args) == 2 and args[0].op == "len" and args[1].op == "getitem" and args[1].args[0] is args[0].args[0] and args[1].args[1].op == "idx" \
            and args[1].args[1].attr == attr[0] and attr[0] not in args[0].args[0].free:
        return mk("call", (args[0].args[0],), ("list", ()))     # [x for x in xs]
    n = Node()
    n.op, n.args, n.attr = op, args, attr
    _count[0] += 1
    n.id = _count[0]
    n.line = cur_line[0]
    dirty = op in DIRTY
    free = EMPTY
    for a in args:
        if a.dirty:
            dirty = True
        if a.free:
            free = free | a.free if free else a.free
    if op in ("idx", "carry"):
        free = frozenset([attr if not isinstance(attr, tuple) else attr[0]])
    elif op in ("sum", "map", "last", "flat", "dictmap", "psum", "scatter"):
        # attr = (idxid, ...)
        free = free - {attr[0]}
    elif op == "fold":
        # attr = (idxid, carry ids, names, k)
        free = free - {attr[0]} - frozenset(attr[1])
    elif op == "lam":
        free = free - frozenset(attr[0])
    n.free = free
    n.dirty = dirty
    _table[key] = n
    return n


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


NONE = None


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk("const", (), (type(v).__name__, v))
    if isinstance(v, int):
        return mk("const", (), ("num", v))
    if isinstance(v, float):
        if v == int(v) if v == v and abs(v) < 1e15 else False:
            return mk("const", (), ("num", int(v)))
        return mk("const", (), ("num", v))
    if v is Ellipsis:
        return mk("const", (), ("ellipsis", "..."))
    return mk("const", (), (type(v).__name__, repr(v)))


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.attr[1]


def is_num(n):
    return n.op == "const" and n.attr[0] == "num"


def is_int(n):
    return is_num(n) and isinstance(n.attr[1], int)


def lst(items):
    return mk("list", items)


def tup(items):
    return mk("tuple", items)


TRUE = const(True)
FALSE = const(False)
NONEN = const(None)


def truth_const(n):
    """Statically known truth value or None."""
    if n.op == "const":
        t, v = n.attr
        if t in ("num", "bool", "str", "NoneType"):
            return bool(v)
    if n.op in ("list", "tuple") and not any(a.op == "star" for a in n.args):
        return len(n.args) > 0
    if n.op in ("fref", "cref", "inst", "clo", "lam", "bm", "mref"):
        return True
    if n.op == "enum":
        return True
    return None


def not_(n):
    t = truth_const(n)
    if t is not None:
        return const(not t)
    if n.op == "not":
        return truth(n.args[0])
    if n.op == "cmp":
        o = n.attr
        if o in ("==", "!=", "is", "isnot", "in", "notin"):
            inv = {"==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}[o]
            return mk("cmp", n.args, inv)
    return mk("not", (n,))


def truth(n):
    return n


def and_(a, b):
    ta, tb = truth_const(a), truth_const(b)
    if ta is False or tb is False:
        return FALSE
    if ta is True:
        return b
    if tb is True:
        return a
    if a is b:
        return a
    return mk("and", (a, b))


def or_(a, b):
    ta, tb = truth_const(a), truth_const(b)
    if ta is True or tb is True:
        return TRUE
    if ta is False:
        return b
    if tb is False:
        return a
    if a is b:
        return a
    return mk("or", (a, b))


def ite(c, a, b):
    t = truth_const(c)
    if t is True:
        return a
    if t is False:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if c.op == "cmp" and c.attr in ("is", "isnot") and NONEN in c.args and len(c.args) == 2:
        # where x is None, x is None
        x = c.args[0] if c.args[1] is NONEN else c.args[1]
        if c.attr == "is":
            a = NONEN if a is x else a
            if a is NONEN and b is x:
                return x
        else:
            b = NONEN if b is x else b
            if b is NONEN and a is x:
                return x
    if a is b:
        return a
    if c.op == "cmp" and c.attr in ("==", "!="):
        # a write that repeats the last one where the positions coincide
        y, x = (a, b) if c.attr == "!=" else (b, a)
        if y.op == "store" and x.op == "store" and y.args[0] is x and y.args[2] is x.args[2]:
            from . import simp
            for p, q in (c.args, c.args[::-1]):
                if p.op != "const" and simp.where_equal(y.args[1], p, q) is simp.where_equal(x.args[1], p, q):
                    return y
    if c.op == "cmp" and c.attr in ("<", "<=", ">", ">="):
        from . import simp
        m = simp.extremum(c, a, b)
        if m is not None:
            return m
    if a.op == "cat" and b.op == "cat" and a.args[0] is b.args[0]:
        x, y = a.args[1], b.args[1]
        if x.op == "list" and y.op == "list" and len(x.args) == len(y.args) and not any(q.op == "star" for q in x.args + y.args):
            return mk("cat", (a.args[0], mk("list", tuple(ite(c, p, q) for p, q in zip(x.args, y.args)))))
    if a.op == "cat" and b.op == "cat":
        from . import simp
        g, k = simp.gated(a), simp.gated(b)
        if g is not None and k is not None and len(g[1]) == len(k[1]) and all(x is y for x, y in zip(g[1], k[1])):
            return simp.from_gated(g[1], [x if q is c else ite(c, x, y) for q, x, y in zip(g[1], g[2], k[2])])
    # conditional extension of a list: what is kept is kept unconditionally
    for big, small, pos in ((a, b, True), (b, a, False)):
        x, parts = big, []
        while x.op == "cat" and x is not small and len(parts) < 4:
            parts.append(x.args[1])
            x = x.args[0]
        if parts and x is small:
            from . import simp
            d = mk("list", ())
            for y in parts[::-1]:
                d = simp.cat(d, y)
            e = mk("list", ())
            return simp.cat(small, ite(c, d, e) if pos else ite(c, e, d))
    return mk("ite", (c, a, b))


def subst(n, m):
    """Replace nodes (by id) according to m: {node.id: Node}; m maps idx/carry nodes."""
    keys = frozenset(m["__free__"])
    memo = {}

    def go(x):
        if not (x.free & keys):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in m:
            r = m[x.id]
        else:
            r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r

    return go(n)


def rebuild(x, args):
    args = tuple(args)
    if all(a is b for a, b in zip(args, x.args)):
        return x
    if x.op == "ite":
        return ite(*args)
    if x.op == "and":
        return and_(*args)
    if x.op == "or":
        return or_(*args)
    if x.op == "not":
        return not_(args[0])
    if x.op == "getitem":
        from . import simp
        return simp.getitem(*args)
    if x.op == "bin":
        from . import simp
        return simp.binop(x.attr, *args)
    if x.op == "cmp":
        from . import simp
        return simp.cmp(x.attr, *args)
    if x.op == "len":
        from . import simp
        return simp.length(args[0])
    return mk(x.op, args, x.attr)


def show(n, d=6):
    if n.op == "const":
        return repr(n.attr[1])
    if n.op == "sym":
        return str(n.attr)
    if n.op in ("idx",):
        return f"i{n.attr}"
    if n.op == "carry":
        return f"c{n.attr[0]}:{n.attr[1]}"
    if d <= 0:
        return f"{n.op}#{n.id}"
    a = ",".join(show(x, d - 1) for x in n.args)
    at = "" if n.attr is None else f"[{n.attr}]"
    return f"{n.op}{at}({a})"


def walk(roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)
