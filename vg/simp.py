"""Local algebraic simplification / constant folding used while building the graph."""
from .core import *
from . import core

_FOLD = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
    "**": lambda a, b: a ** b,
}


RSORTS = {}       # sorts of results of functions of the repository that are never None


def result_sort(n):
    """(True, sort) when n is a result that is never None"""
    if n.op == "rcall" and (n.attr[0], None) in RSORTS:
        return True, RSORTS[n.attr[0], None]
    if n.op == "getitem" and n.args[0].op == "rcall" and is_int(n.args[1]) and (n.args[0].attr[0], cval(n.args[1])) in RSORTS:
        return True, RSORTS[n.args[0].attr[0], cval(n.args[1])]
    return False, None


def binop(op, a, b):
    if is_num(a) and is_num(b) and op in _FOLD:
        try:
            v = _FOLD[op](cval(a), cval(b))
            if isinstance(v, (int, float)) and abs(v) < 1e300:
                return const(v)
        except Exception:
            pass
    if op == "+":
        if a.op == "const" and b.op == "const" and a.attr[0] == "str" and b.attr[0] == "str":
            return const(cval(a) + cval(b))
        if a.op in ("list", "tuple") and b.op == a.op and not _star(a) and not _star(b):
            return mk(a.op, a.args + b.args)
        if is_listy(a) and is_listy(b) or is_listy(a) and b.op in ("mcall", "rcall") or is_listy(b) and a.op in ("mcall", "rcall"):
            return cat(a, b)
        if is_num(a) and cval(a) == 0 and not is_listy(b):
            return b
        if is_num(b) and cval(b) == 0 and not is_listy(a):
            return a
        # (x + c1) + c2 -> x + (c1+c2) on integers : keeps running offsets small
        if is_int(b) and a.op == "bin" and a.attr == "+" and is_int(a.args[1]):
            return binop("+", a.args[0], const(cval(a.args[1]) + cval(b)))
    if op == "*":
        if a.op == "list" and is_int(b) and 0 <= cval(b) <= 16 and not _star(a):
            return mk("list", a.args * cval(b))
        if b.op == "list" and not (a.op in ("list", "const")) and len(b.args) == 1:
            a, b = b, a
        if a.op == "list" and len(a.args) == 1 and not _star(a) and b.op in ("len", "getitem", "bin", "sym", "sel", "ite", "attr0", "call") and not (b.op == "sym" and b.attr[1] not in (None, "int")):
            return mk("map", (b, a.args[0]), (fresh(),))
        if is_num(a) and cval(a) == 1:
            return b
        if is_num(b) and cval(b) == 1:
            return a
    if op == "-" and is_num(b) and cval(b) == 0:
        return a
    if op in ("*", "/"):
        # scaling an array that was filled entry by entry scales the entries
        x, c = (a, b) if is_num(b) else (b, a) if op == "*" and is_num(a) else (None, None)
        if x is not None and x.op == "store" and x.args[1].op == "tuple" and all(is_int(q) for q in x.args[1].args):
            return mk("store", (binop(op, x.args[0], c), x.args[1], binop(op, x.args[2], c)))
        if x is not None and x.op == "call" and x.attr[0] == "np.zeros" and cval(c) != 0:
            return x
    return mk("bin", (a, b), op)


def _star(n):
    return any(x.op == "star" for x in n.args)


_listy: dict = {}


def is_listy(n):
    if n.op in ("list", "map", "cat", "flat"):
        return True
    if n.op == "ite":
        k = _listy.get(n.id)
        if k is None:
            k = _listy[n.id] = is_listy(n.args[1]) and is_listy(n.args[2])
        return k
    return False


def cat(a, b):
    if a.op == "list" and not a.args:
        return b
    if b.op == "list" and not b.args:
        return a
    if a.op == "list" and b.op == "list" and not _star(a) and not _star(b):
        return mk("list", a.args + b.args)
    if b.op == "cat":
        return cat(cat(a, b.args[0]), b.args[1])
    if a.op == "cat" and a.args[1].op == "list" and b.op == "list" and not _star(b) and not _star(a.args[1]):
        return mk("cat", (a.args[0], mk("list", a.args[1].args + b.args)))
    return mk("cat", (a, b))


def _tail(x, k):
    """x = ... + [known elements], and the negative position k falls among those"""
    return k < 0 and x.op == "cat" and x.args[1].op == "list" and not _star(x.args[1]) and -k <= len(x.args[1].args)


def gated(x):
    """[x0 if 0 < n] + [x1 if 1 < n] + ...: a list unrolled from one of n elements -> (n, gates, elements)"""
    parts = []
    while x.op == "cat":
        parts.append(x.args[1])
        x = x.args[0]
    parts.append(x)
    parts.reverse()
    n, gs, els = None, [], []
    for j, p in enumerate(parts):
        if p.op != "ite" or p.args[1].op != "list" or len(p.args[1].args) != 1 or p.args[2].op != "list" or p.args[2].args or p.args[1].args[0].op == "star":
            return None
        c = p.args[0]
        if c.op != "cmp":
            return None
        a, b = c.args
        if c.attr == "<" and is_int(a) and cval(a) == j:
            m = b
        elif c.attr == ">" and is_int(b) and cval(b) == j:
            m = a
        elif c.attr == "!=" and is_int(b) and cval(b) == 0 and j == 0 and a.op == "len":
            m = a
        else:
            return None
        if n is not None and m is not n:
            return None
        n = m
        gs.append(c)
        els.append(p.args[1].args[0])
    return (n, gs, els) if len(els) > 1 else None


def from_gated(gs, els):
    r = mk("list", ())
    for c, e in zip(gs, els):
        r = cat(r, ite(c, mk("list", (e,)), mk("list", ())))
    return r


def append(a, v):
    return cat(a, lst([v]))


def length(x):
    if x.op in ("list", "tuple") and not _star(x):
        return const(len(x.args))
    if x.op == "const" and x.attr[0] == "str":
        return const(len(cval(x)))
    if x.op == "map" and len(x.args) == 2:
        return x.args[0]
    if x.op == "map" and x.args[1].op != "idx":
        return mk("len", (positions(x),))
    if x.op == "mcall" and x.attr in (("items", ()), ("values", ()), ("keys", ())) and len(x.args) == 1:
        return length(x.args[0])
    if x.op == "cat":
        g = gated(x)
        if g is not None:
            return g[0]
        return binop("+", length(x.args[0]), length(x.args[1]))
    if x.op == "dict":
        return const(len(x.attr))
    if x.op == "call" and x.attr == ("np.array_split", ()) and len(x.args) == 2 and (is_int(x.args[1]) or x.args[1].op == "bin" or x.args[1].op == "sym" and x.args[1].attr[1] == "int" or x.args[1].op == "call" and x.args[1].attr[0] in ("np.minimum", "np.maximum", "int", "min", "max")):
        return x.args[1]
    if x.op == "call" and x.attr == ("list", ()) and len(x.args) == 1:
        return length(x.args[0])
    if x.op == "range":
        s, e, st = x.args
        if all(is_int(q) for q in x.args):
            return const(len(range(cval(s), cval(e), cval(st))))
        if is_int(st) and cval(st) == 1:
            if is_int(s) and cval(s) == 0:
                return e
            return binop("-", e, s)
        if is_int(st) and cval(st) == -1:
            return binop("-", s, e)
        return mk("rlen", (s, e, st))
    if x.op == "store" and x.args[1].op not in ("slice",):
        return length(x.args[0])
    return mk("len", (x,))


def inst_bound(body, idxid, k):
    return subst(body, {mk("idx", (), idxid).id: k, "__free__": [idxid]})


def positions(x):
    """the positions a filtered comprehension keeps"""
    return mk("map", (x.args[0], mk("idx", (), x.attr[0]), x.args[2]), x.attr)


def full(q):
    return q.op == "slice" and q.args[1] is NONEN and (q.args[2] is NONEN or is_int(q.args[2]) and cval(q.args[2]) == 1) and (q.args[0] is NONEN or is_int(q.args[0]) and cval(q.args[0]) == 0)


def canon_index(i):
    """x[k, :, :] is x[k]"""
    if i.op == "tuple" and len(i.args) > 1 and full(i.args[-1]) and not _star(i):
        a = list(i.args)
        while len(a) > 1 and full(a[-1]):
            a.pop()
        if len(a) == 1 and (full(a[0]) or a[0].op in ("list", "tuple") or a[0] is NONEN):
            return i
        return a[0] if len(a) == 1 else mk("tuple", a)
    return i


def compose(i, j):
    """x[i][j] as one index when i only slices"""
    p = list(i.args) if i.op == "tuple" else [i]
    q = list(j.args) if j.op == "tuple" else [j]
    if _star(i) or _star(j) or len(p) < 2 and len(q) < 2:
        return None
    out = []
    for k in range(max(len(p), len(q))):
        a = p[k] if k < len(p) else None
        b = q[k] if k < len(q) else None
        if a is not None and (a.op != "slice" or a.args[2] is not NONEN):
            return None
        if b is not None and not (b.op == "slice" and b.args[2] is NONEN or is_indexlike(b) or b.op == "idx"):
            return None
        if a is None or full(a):
            out.append(b if b is not None else a)
        elif b is None or full(b):
            out.append(a)
        elif a.args[0] is NONEN:
            if b.op != "slice":
                if is_int(b) and cval(b) < 0:
                    return None
                out.append(b)
            elif b.args[1] is NONEN:
                if is_int(b.args[0]) and cval(b.args[0]) < 0:
                    return None
                out.append(mk("slice", (b.args[0], a.args[1], NONEN)))
            elif b.args[1] is a.args[1] or b.args[1].op == "bin" and b.args[1].attr == "//" and b.args[1].args[0] is a.args[1]:
                out.append(b)
            else:
                return None
        else:
            return None
    return canon_index(mk("tuple", out)) if len(out) > 1 else out[0]


def open_end(x, i):
    """x[a:len(x)] is x[a:], per axis"""
    p = list(i.args) if i.op == "tuple" else [i]
    if _star(i) or not any(q.op == "slice" and q.args[1].op in ("len", "getitem") for q in p):
        return i
    out = []
    for k, q in enumerate(p):
        if q.op == "slice" and (k == 0 and q.args[1].op == "len" and q.args[1].args[0] is x or q.args[1].op == "getitem" and q.args[1].args[0].op == "shape" and q.args[1].args[0].args[0] is x and q.args[1].args[1] is const(k)):
            q = mk("slice", (q.args[0], NONEN, q.args[2]))
        elif q.op not in ("slice",) and (q is NONEN or q.op == "const" and not is_int(q)):
            return i
        out.append(q)
    return mk("tuple", out) if i.op == "tuple" else out[0]


def run_index(i):
    """x[np.arange(a, b)] selects what x[a:b] selects"""
    p = list(i.args) if i.op == "tuple" else [i]
    if _star(i):
        return i
    ar = [k for k, q in enumerate(p) if q.op == "call" and q.attr == ("np.arange", ()) and 1 <= len(q.args) <= 2 or q.op == "range" and is_int(q.args[2]) and cval(q.args[2]) == 1]
    if len(ar) != 1 or any(k != ar[0] and q.op != "slice" for k, q in enumerate(p)):
        return i
    q = p[ar[0]]
    a = (const(0), q.args[0]) if len(q.args) == 1 else q.args[:2]
    if any(is_int(v) and cval(v) < 0 for v in a):
        return i
    p[ar[0]] = mk("slice", (NONEN if is_int(a[0]) and cval(a[0]) == 0 else a[0], a[1], NONEN))
    return mk("tuple", p) if i.op == "tuple" else p[0]


def getitem(x, i):
    i = canon_index(open_end(x, run_index(i)))
    if x.op == "getitem" and i.op in ("tuple", "slice", "idx", "const", "bin") and x.args[1].op in ("slice", "tuple") and (i.op == "tuple" or x.args[1].op == "tuple"):
        c = compose(x.args[1], i)
        if c is not None:
            return getitem(x.args[0], c)
    if x.op == "shape" and is_int(i) and cval(i) >= 0 and x.args[0].op == "getitem":
        g = x.args[0].args[1]
        p = list(g.args) if g.op == "tuple" else [g]
        k = cval(i)
        if not _star(g) and all(q.op == "slice" for q in p) and (k >= len(p) or full(p[k])):
            return getitem(mk("shape", (x.args[0].args[0],)), i)
    if x.op in ("list", "tuple") and not _star(x):
        if is_int(i):
            k = cval(i)
            if -len(x.args) <= k < len(x.args):
                return x.args[k]
        if i.op == "slice" and all(q.op == "const" and q.attr[0] in ("num", "NoneType") for q in i.args):
            s = slice(*[cval(q) for q in i.args])
            try:
                return mk(x.op, x.args[s])
            except Exception:
                pass
    if x.op == "const" and x.attr[0] == "str" and is_int(i):
        try:
            return const(cval(x)[cval(i)])
        except Exception:
            pass
    if x.op == "dict" and i.op == "const":
        for k, v in zip(x.attr, x.args):
            if k is i:
                return v
    if is_int(i) and x.op == "ite" and any(y.op == "getitem" and y.args[1].op == "slice" for y in x.args[1:]):
        return ite(x.args[0], getitem(x.args[1], i), getitem(x.args[2], i))
    if is_int(i) and cval(i) >= 0 and x.op == "getitem" and x.args[1].op == "slice":
        lo, hi, sp = x.args[1].args
        lo = 0 if lo is NONEN else cval(lo) if is_int(lo) else -1
        if lo >= 0 and (sp is NONEN or is_int(sp) and cval(sp) == 1) and (hi is NONEN or is_int(hi) and (cval(hi) < 0 or lo + cval(i) < cval(hi))):
            return getitem(x.args[0], const(lo + cval(i)))
    if x.op == "map" and len(x.args) == 2 and i.op not in ("slice", "tuple", "cmp") and not (is_int(i) and cval(i) < 0):
        if is_indexlike(i):
            return inst_bound(x.args[1], x.attr[0], i)
    if x.op == "map" and len(x.args) == 3 and x.args[1].op != "idx" and is_indexlike(i) and not (is_int(i) and cval(i) < 0):
        return inst_bound(x.args[1], x.attr[0], mk("getitem", (positions(x), i)))
    if x.op == "call" and i.op in ("cmp", "and", "or", "not") and x.attr == ("np.arange", ()) and (len(x.args) == 1 or (len(x.args) == 2 and is_int(x.args[0]) and cval(x.args[0]) == 0)):
        return mk("call", (i,), ("np.flatnonzero", ()))
    if x.op == "call" and x.attr in (("np.where", ()), ("np.nonzero", ())) and len(x.args) == 1 and is_int(i) and cval(i) == 0:
        return mk("call", x.args, ("np.flatnonzero", ()))
    if x.op == "range" and (is_indexlike(i)) and not (is_int(i) and cval(i) < 0):
        s, e, st = x.args
        return binop("+", s, binop("*", i, st))
    if x.op == "store" and x.args[1] is i and i.op != "slice":
        return x.args[2]
    if x.op == "cat" and is_int(i) and cval(i) >= 0:
        h = x
        while h.op == "cat":
            h = h.args[0]
        if h.op == "list" and not _star(h) and cval(i) < len(h.args):
            return h.args[cval(i)]
        g = gated(x)
        if g is not None and cval(i) < len(g[2]):
            return g[2][cval(i)]
    if is_int(i) and cval(i) < 0 and _tail(x, cval(i)):
        return getitem(x.args[1], i)
    if is_int(i) and cval(i) < 0 and x.op == "ite" and any(_tail(y, cval(i)) or y.op == "store" and y.args[1] is i for y in x.args[1:]):
        return ite(x.args[0], getitem(x.args[1], i), getitem(x.args[2], i))
    if x.op == "store" and is_int(i) and is_int(x.args[1]) and cval(i) >= 0 and cval(x.args[1]) >= 0:
        return getitem(x.args[0], i)
    if x.op == "ite" and is_int(i) and (x.args[1].op in ("list", "tuple") or x.args[2].op in ("list", "tuple")):
        return ite(x.args[0], getitem(x.args[1], i), getitem(x.args[2], i))
    if x.op == "shape" and is_int(i) and cval(i) == 0:
        return mk("len", (x.args[0],))
    return mk("getitem", (x, i))


def is_indexlike(i):
    """syntactically an integer position (not a mask / array)."""
    if i.op == "idx" or is_int(i):
        return True
    if i.op == "getitem" and i.args[0].op == "map" and len(i.args[0].args) == 3 and i.args[0].args[1].op == "idx":
        return True
    if i.op == "bin" and i.attr in ("+", "-", "*"):
        return all(is_indexlike(a) or a.op in ("len", "sym_int") for a in i.args)
    return False


_CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
        ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def truthy(n):
    """an array of truth values"""
    if n.op in ("cmp", "not"):
        return n.op == "cmp" and n.attr in ("<", ">", "<=", ">=", "==", "!=") or n.op == "not" and truthy(n.args[0])
    if n.op == "bin" and n.attr in ("&", "|", "^"):
        return all(truthy(x) for x in n.args)
    if n.op == "un" and n.attr in ("inv", "~"):
        return truthy(n.args[0])
    return n.op == "call" and n.attr[0] in ("np.isnan", "np.isinf", "np.isfinite", "np.logical_and", "np.logical_or", "np.logical_not")


def countof(n):
    return n.op == "call" and n.attr == ("np.sum", ()) and len(n.args) == 1 and truthy(n.args[0])


def _lin(n, k, out):
    if is_int(n):
        out[None] = out.get(None, 0) + k * cval(n)
    elif n.op == "bin" and n.attr in ("+", "-"):
        _lin(n.args[0], k, out)
        _lin(n.args[1], k if n.attr == "+" else -k, out)
    else:
        out[n] = out.get(n, 0) + k


def extremum(c, a, b):
    """the smaller (greater) of a and b when the condition c compares just them"""
    d, e = {}, {}
    _lin(c.args[0], 1, d)
    _lin(c.args[1], -1, d)
    _lin(a, 1, e)
    _lin(b, -1, e)
    d = {n: k for n, k in d.items() if k}
    e = {n: k for n, k in e.items() if k}
    if not d or set(d) != set(e) or set(d) == {None} or any(n is not None and (n.op not in ("sym", "bin", "call", "mcall", "rcall", "getitem", "carry", "idx", "len", "shape", "sel", "attr0", "ite", "fold", "sum", "const")) for n in d):
        return None
    if all(d[n] == e[n] for n in d):
        less = c.attr in ("<", "<=")
    elif all(d[n] == -e[n] for n in d):
        less = c.attr in (">", ">=")
    else:
        return None
    return mk("call", (a, b), ("np.minimum" if less else "np.maximum", ()))


def where_equal(n, p, q):
    """n with q for p in sums and tuples"""
    if n is p:
        return q
    if n.op == "bin" and n.attr in ("+", "-"):
        return binop(n.attr, where_equal(n.args[0], p, q), where_equal(n.args[1], p, q))
    if n.op == "tuple":
        return mk("tuple", tuple(where_equal(x, p, q) for x in n.args))
    return n


def positive(n):
    return n.op == "call" and n.attr[0] in ("np.sqrt", "np.exp", "math.sqrt", "math.exp") and len(n.args) == 1 or is_num(n) and cval(n) > 0


def integral(n):
    """an integer by its form"""
    if n.op in ("len", "idx", "rlen"):
        return True
    if n.op == "const":
        return is_int(n)
    if n.op == "getitem":
        return n.args[0].op == "shape"
    if n.op == "sym":
        return n.attr[1] == "int"
    if n.op == "call":
        return n.attr[0] in ("int", "len") or n.attr[0] in ("np.minimum", "np.maximum") and len(n.args) == 2 and all(map(integral, n.args))
    if n.op == "bin":
        return n.attr in ("+", "-", "*", "//", "%") and all(map(integral, n.args))
    return False


def natural(n):
    """an integer that is not negative by its form"""
    return n.op in ("len", "idx", "rlen") or is_int(n) and cval(n) >= 0 or n.op == "getitem" and n.args[0].op == "shape" or n.op == "bin" and n.attr in ("+", "*", "//") and all(map(natural, n.args))


def _idxdiff(a, b):
    """(index, orientation, constant) when a and b differ by a loop index and a constant only"""
    if not any(x.op == "bin" and x.attr in ("+", "-") for x in (a, b)):
        return None
    out = {}
    _lin(a, 1, out)
    _lin(b, -1, out)
    at = [(n, k) for n, k in out.items() if n is not None and k]
    if len(at) != 1 or at[0][0].op != "idx" or abs(at[0][1]) != 1:
        return None
    n, k = at[0]
    return n, k == 1, -k * out.get(None, 0)


def cmp(op, a, b):
    if op in _CMP and a.op == "const" and b.op == "const":
        try:
            return const(bool(_CMP[op](cval(a), cval(b))))
        except Exception:
            pass
    if a.op == "const" and b.op != "const" and op in ("<", ">", "<=", ">=", "==", "!="):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    # a length is not negative: one form for each of "empty" and "not empty"
    if a.op == "const" and b.op == "len" and op in ("<", ">", "<=", ">=", "==", "!="):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        # start + index against start + constant: compare the index
        d = _idxdiff(a, b)
        if d is not None:
            return cmp(op if d[1] else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), d[0], const(d[2]))
    if a.op in ("len", "idx") and is_int(b):
        if cval(b) < 0:
            return const(op in (">", ">=", "!="))
        if (cval(b) == 0 and op == ">") or (cval(b) == 1 and op == ">="):
            return mk("cmp", (a, const(0)), "!=")
        if (cval(b) == 0 and op == "<=") or (cval(b) == 1 and op == "<"):
            return mk("cmp", (a, const(0)), "==")
    if a.op == "const" and countof(b) and op in ("<", ">", "<=", ">=", "==", "!="):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if is_int(b) and countof(a):
        # the number of true entries against none
        if (cval(b) == 0 and op in (">", "!=")) or (cval(b) == 1 and op == ">="):
            return mk("call", a.args, ("np.any", ()))
        if (cval(b) == 0 and op in ("<=", "==")) or (cval(b) == 1 and op == "<"):
            return not_(mk("call", a.args, ("np.any", ())))
    if op in ("is", "isnot", "==", "!="):
        pos = op in ("is", "==")
        if a is b and op in ("is", "isnot"):
            return const(pos)
        if a is b and a.op in ("enum", "cref", "fref"):
            return const(pos)
        kn = {"const", "enum", "cref", "fref", "list", "tuple", "inst", "clo", "lam", "map", "cat", "dict", "range", "bm", "mref"}
        if a.op == "enum" and b.op == "enum":
            return const((a is b) == pos)
        if (b is NONEN or a is NONEN) and (a.op in kn and b.op in kn) and a is not b:
            return const(not pos)
        if op in ("is", "isnot") and a.op == "const" and b.op == "const":
            return const((a is b) == pos)
        if (b is NONEN or a is NONEN):
            other = a if b is NONEN else b
            if other.op in ("bin", "shape", "len", "sum") or (other.op == "call" and other.attr[0].startswith("np.")) or result_sort(other)[0]:
                return const(not pos)
            if other.op == "ite":
                x = cmp(op, other.args[1], NONEN)
                y = cmp(op, other.args[2], NONEN)
                if x is y:
                    return x
                if any(q.op != "cmp" or q.attr != op or q.args[0] is not z for q, z in ((x, other.args[1]), (y, other.args[2]))):
                    return ite_bool(other.args[0], x, y)
        if (b in (TRUE, FALSE)) and a.op == "const":
            return const((a is b) == pos)
        if op in ("is", "isnot") and b is TRUE and a.op in ("cmp", "not", "and", "or", "isinst"):
            return a if pos else not_(a)
        if op in ("is", "isnot") and b is FALSE and a.op in ("cmp", "not", "and", "or", "isinst"):
            return not_(a) if pos else a
    if op in ("in", "notin") and b.op == "mcall" and b.attr == ("keys", ()) and len(b.args) == 1:
        return cmp(op, a, b.args[0])
    if op in ("in", "notin") and b.op == "map" and len(b.args) == 3 and b.args[1].op == "idx" and a.op == "idx":
        r = inst_bound(b.args[2], b.attr[0], a)
        return r if op == "in" else not_(r)
    if op in ("in", "notin") and b.op in ("list", "tuple") and not _star(b):
        if all(x is a for x in b.args) and b.args:
            return const(op == "in")
        if a.op in ("const", "enum") and all(x.op in ("const", "enum") for x in b.args):
            return const((a in b.args) == (op == "in"))
        r = FALSE
        for x in b.args:
            r = or_(r, cmp("==", a, x))
        return r if op == "in" else not_(r)
    if op in ("<", ">", "<=", ">="):
        for _ in range(2):
            if b.op == "bin" and b.attr == "/" and positive(b.args[1]):
                a, b = binop("*", a, b.args[1]), b.args[0]
            if a.op == "bin" and a.attr == "/" and positive(a.args[1]):
                a, b = a.args[0], binop("*", b, a.args[1])
        if op in ("<=", ">=") and integral(a) and integral(b):
            # integers: one strict form
            op, b = op[0], binop("+" if op == "<=" else "-", b, const(1))
    return mk("cmp", (a, b), op)


def ite_bool(c, a, b):
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    return ite(c, a, b)


def store(x, i, v):
    i = canon_index(i)
    if x.op in ("list",) and not _star(x) and is_int(i) and -len(x.args) <= cval(i) < len(x.args):
        a = list(x.args)
        a[cval(i)] = v
        return mk("list", a)
    if x.op == "dict" and i.op == "const":
        ks, vs = list(x.attr), list(x.args)
        if i in ks:
            vs[ks.index(i)] = v
        else:
            ks.append(i)
            vs.append(v)
        return mk("dict", vs, tuple(ks))
    if x.op == "store" and x.args[1] is i:
        x = x.args[0]
    if is_int(i) and _tail(x, cval(i)):
        return mk("cat", (x.args[0], store(x.args[1], i, v)))
    if is_int(i) and cval(i) >= 0 and x.op == "cat":
        g = gated(x)
        if g is not None and cval(i) < len(g[2]):
            els = list(g[2])
            els[cval(i)] = v
            return from_gated(g[1], els)
    return mk("store", (x, i, v))
