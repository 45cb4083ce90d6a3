"""Value numbering of gated graphs by random interpretation.

A graph node is interpreted in a random algebra: every unknown of the program is a generic square matrix (or a generic
scalar when its declared sort says so), arithmetic keeps its algebraic laws, every operation without a known law is an
uninterpreted symbol.  Two terms that are equal under those laws get the same number in every interpretation; terms that
differ get different numbers with overwhelming probability.  Nothing of the analysed program is imported or executed."""
from __future__ import annotations
import hashlib
import math
import time
import numpy as np
import scipy.special as sps
from . import core
from .core import is_num, cval

K = 4


class Eye(np.ndarray):
    """the identity matrix; its dimension counts where it is handed to a function without a law here (kron, concatenation, ...), not in arithmetic"""
    dims = None


def eye(dims):
    r = np.eye(K).view(Eye)
    r.dims = dims
    return r




def h(*parts):
    m = hashlib.blake2b(digest_size=12)
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        elif isinstance(p, int):
            p = str(p).encode()
        m.update(b"%d:" % len(p))
        m.update(p)
    return m.digest()


def h01(*parts):
    return int.from_bytes(h(*parts)[:6], "big") / 2.0 ** 48


def mat(d):
    # a product of two K x K matrices with entries about 1 has entries about K: a scale of 2^0 .. 2^-4 (exact in floating point, its mean undoes the growth)
    # per unknown keeps the terms of long products balanced and lets each of them matter in some interpretation
    b = hashlib.blake2b(d, digest_size=4 * K * K).digest()
    u = np.frombuffer(b, dtype=np.uint32).astype(float) / 2.0 ** 32
    return (0.25 + 1.5 * u).reshape(K, K) * 2.0 ** -(b[0] % 5)


def scal(d):
    u = int.from_bytes(hashlib.blake2b(d, digest_size=6).digest(), "big") / 2.0 ** 48
    return 0.25 + 1.5 * u


class Seq:
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind, self.items = kind, tuple(items)


class Opq:
    """a value known only by its number"""
    __slots__ = ("d", "tag", "m", "g")

    def __init__(self, d, tag=None):
        self.d, self.tag, self.m, self.g = d, tag, None, None

    def mat(self):
        if self.m is None:
            self.m = mat(self.d)
        return self.m

    def dig(self):
        if self.g is None:
            self.g = h("a", "(%d, %d)" % (K, K), qround(self.mat()).tobytes())
        return self.g


class Part(Opq):
    pass


class Str(str):
    pass


class Heap:
    __slots__ = ("base", "ent", "attr")

    def __init__(self, base, ent, attr):
        self.base, self.ent, self.attr = base, ent, attr


class Store:
    """array or mapping with writes at unknown positions; writes to different positions commute"""
    __slots__ = ("base", "ent")

    def __init__(self, base, ent):
        self.base, self.ent = base, ent


def qround(a):
    """coarse bit pattern of an array (16 mantissa bits), zero-snapped"""
    a = np.asarray(a, dtype=float)
    with np.errstate(all="ignore"):
        f = np.where(np.abs(a) < 1e-8, 0.0, a).astype(np.float32)
    u = f.reshape(-1).view(np.uint32)
    return ((u.astype(np.uint64) + 0x40) >> np.uint64(7))


def dig(v):
    if isinstance(v, bool):
        return b"T" if v else b"F"
    if isinstance(v, float):
        if v != v:
            return b"nan"
        if v in (math.inf, -math.inf):
            return b"inf" if v > 0 else b"-inf"
        return b"s" + qround(v).tobytes()
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            return h("m", str(v.shape), v.tobytes())
        if isinstance(v, Eye) and v.dims is not None:
            return h("eye", v.dims)
        return h("a", str(v.shape), qround(np.asarray(v)).tobytes())
    if isinstance(v, Opq):
        return v.dig()
    if v is None:
        return b"None"
    if isinstance(v, str):
        return h("str", v)
    if isinstance(v, Seq):
        return h("seq", *[dig(x) for x in v.items])
    if isinstance(v, Heap):
        return h("heap", v.base, *[x for k in sorted(v.ent) for x in (k, dig(v.ent[k]))])
    if isinstance(v, Store):
        return h("store", dig(v.base), *[x for k in sorted(v.ent) for x in (k, dig(v.ent[k]))])
    raise TypeError(type(v))


def num(v):
    """numeric view"""
    if isinstance(v, float):
        return v
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, np.ndarray):
        return v.astype(float) if v.dtype == bool else v
    if isinstance(v, Opq):
        return v.mat()
    if isinstance(v, Seq):
        it = [num(x) for x in v.items]
        if it and all(isinstance(x, float) for x in it):
            return np.array(it).reshape(-1, 1)
        if it and all(isinstance(x, np.ndarray) and x.shape == it[0].shape for x in it) and len(it) == 1:
            return it[0]
    return mat(dig(v))


SC = ("float", "int")
_NOLAW = object()


def _safe(v):
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            v = float(v)
        else:
            return v if np.all(np.isfinite(v)) else None
    if isinstance(v, (np.floating, np.integer)):
        v = float(v)
    if isinstance(v, float):
        return v if math.isfinite(v) else None
    return v


def patch(v, x, tag):
    """replace non-finite results of a partial function by a number keyed by the argument"""
    if isinstance(x, np.ndarray):
        bad = ~np.isfinite(v)
        if bad.any():
            v = v.copy()
            fx, fv, fb = x.reshape(-1), v.reshape(-1), bad.reshape(-1)
            for i in np.nonzero(fb)[0]:
                fv[i] = scal(h("uf1", tag, dig(float(fx[i]))))
            v = fv.reshape(v.shape)
        return v
    v = float(v)
    return v if math.isfinite(v) else scal(h("uf1", tag, dig(float(x))))


def elem(fn, tag, lim=None):
    def go(x):
        x = num(x)
        with np.errstate(all="ignore"):
            y = fn(x if lim is None else np.where(np.abs(x) < lim, x, np.nan))
        if isinstance(y, np.ndarray) and y.ndim == 0:
            y = float(y)
        return patch(y if isinstance(x, np.ndarray) else float(y), x, tag)
    return go


ELEM = {
    "np.log": elem(lambda x: np.log(np.where(x != 0, np.abs(x), np.nan)), "log"),
    "np.exp": elem(np.exp, "exp", 40.0),
    "np.sqrt": elem(lambda x: np.sqrt(np.abs(x)), "sqrt"),
    "np.log1p": elem(lambda x: np.log(np.where(x != -1, np.abs(1 + x), np.nan)), "log1p"),
    "np.expm1": elem(np.expm1, "expm1", 40.0),
    "np.log2": elem(lambda x: np.log(np.where(x != 0, np.abs(x), np.nan)) / np.log(2), "log2"),
    "np.log10": elem(lambda x: np.log(np.where(x != 0, np.abs(x), np.nan)) / np.log(10), "log10"),
    "np.sin": elem(np.sin, "sin", 1e3), "np.cos": elem(np.cos, "cos", 1e3), "np.tanh": elem(np.tanh, "tanh", 40.0),
    "np.arctan": elem(np.arctan, "arctan", 1e6),
    "scp.special.gammaln": elem(lambda x: sps.gammaln(np.where(x > 0, x, np.nan)), "gammaln", 1e5),
    "scp.special.digamma": elem(lambda x: sps.digamma(np.where(x > 0, x, np.nan)), "digamma", 1e5),
    "scp.special.gamma": elem(lambda x: sps.gamma(np.where(x > 0, x, np.nan)), "gamma", 50.0),
    "scp.special.factorial": elem(lambda x: sps.gamma(np.where(x > -1, x, np.nan) + 1), "gamma", 50.0),
    "scp.special.expit": elem(lambda x: 1 / (1 + np.exp(-x)), "expit", 40.0),
    "scp.special.logit": elem(lambda x: np.log(np.where((x != 0) & (x != 1), np.abs(x / (1 - x)), np.nan)), "logit", 1e5),
    "scp.special.erf": elem(sps.erf, "erf", 50.0),
    "np.reciprocal": elem(lambda x: 1 / x, "recip"),
    "np.floor": elem(np.floor, "floor", 1e9), "np.ceil": elem(np.ceil, "ceil", 1e9),
}
IDENT = {"np.reshape", "np.flatten", "np.ravel", "np.tocsc", "np.tocsr", "np.tocoo", "np.toarray", "np.todense", "np.array", "np.asarray",
         "np.ascontiguousarray", "np.asfortranarray", "float", "np.float64", "scp.sparse.csc_array", "scp.sparse.csr_array", "scp.sparse.coo_array",
         "scp.sparse.csc_matrix", "scp.sparse.csr_matrix", "np.squeeze", "np.atleast_1d", "np.atleast_2d", "list", "np.tolist", "iter",
         "scp.sparse.coo_matrix", "np.conj", "tuple", "np.item", "np.matrix", "np.asmatrix"}


def plain_reshape(a):
    """reshape to a column or to a vector: one value per row in both"""
    if len(a) == 1 and a[0].op in ("tuple", "list"):
        a = a[0].args
    c = [cval(x) if is_num(x) else None for x in a]
    return c in ([-1], [-1, 1]) or (len(c) == 2 and c[0] is None and c[1] == 1)


EYE = {"np.identity", "scp.sparse.identity", "scp.sparse.eye", "scp.sparse.eye_array"}


def binop(op, a, b):
    a, b = num(a), num(b)
    try:
        with np.errstate(all="ignore"):
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                r = a / b if not (isinstance(b, float) and b == 0.0) else None
                if r is not None and isinstance(r, np.ndarray) and not np.all(np.isfinite(r)):
                    bb = np.broadcast_to(b, r.shape) if isinstance(b, np.ndarray) else np.full(r.shape, b)
                    aa = np.broadcast_to(a, r.shape) if isinstance(a, np.ndarray) else np.full(r.shape, a)
                    r = r.copy()
                    for i in zip(*np.nonzero(~np.isfinite(r))):
                        r[i] = scal(h("div0", dig(float(aa[i])), dig(float(bb[i]))))
            elif op == "**":
                if isinstance(b, float) and b == int(b) and abs(b) <= 6:
                    r = a ** b if (b >= 0 or not (isinstance(a, float) and a == 0)) else None
                    if isinstance(r, complex):
                        r = None
                else:
                    r = _pow(a, b)
            elif op == "@":
                if isinstance(a, float) or isinstance(b, float):
                    r = a * b
                else:
                    r = a @ b
                    if r.shape == (1, 1):
                        r = r.reshape(1, 1)
            else:
                r = None
        r = _safe(r) if r is not None else None
    except (ValueError, OverflowError, ZeroDivisionError):
        r = None
    if r is None:
        da, db = dig(a), dig(b)
        if op in ("+", "*"):
            da, db = sorted((da, db))
        d = h("bin", op, da, db)
        if isinstance(a, float) and isinstance(b, float):
            return scal(d)
        return mat(d)
    return r


def _pow(a, b):
    def one(x, y):
        x = abs(x)          # as for np.log and np.sqrt: outside the domain the laws of logarithms and powers are kept
        if x > 0 and abs(y * math.log(x)) < 60:
            return x ** y
        return scal(h("pow", dig(float(x)), dig(float(y))))
    if isinstance(a, float) and isinstance(b, float):
        return one(a, b)
    A, B = np.broadcast_arrays(a, b)
    return np.array([one(float(x), float(y)) for x, y in zip(A.reshape(-1), B.reshape(-1))]).reshape(A.shape)


def iscat(v):
    return isinstance(v, Opq) and isinstance(v.tag, tuple) and v.tag[0] == "cat"


def isstr(v):
    return isinstance(v, Str) or (isinstance(v, Opq) and (v.tag == "str" or isinstance(v.tag, tuple) and v.tag[0] == "scat"))


class Late(Exception):
    pass


class Missed(Exception):
    """a condition wanted for this interpretation came out the other way"""

    def __init__(self, c, env):
        self.c, self.env = c, env


class Interp:
    """one random interpretation"""

    def __init__(self, seed, wild, vocab, mro=None, samples=2, salts=None, hot=(), log=None, want=None, deadline=None):
        self.salts = salts or {}
        self.esalts = {k[1]: v for k, v in self.salts.items() if k[0] == "e"}
        self.log = log
        self.want = want or {}
        self.deadline = deadline
        self.seed = str(seed)
        self.salt = h("trial", self.seed)
        self.saltu = np.uint64(int.from_bytes(self.salt[:8], "big") | 1)
        self.wild = wild
        self.vocab = vocab
        self.scal = vocab.get("scal", ())
        self.mro = mro or (lambda c: (c,))
        self.memo = {}
        self.cmap = {}
        self.undef = False      # a variable without a value was read
        self.lam_s = samples
        ths = [t for t in vocab["nums"] if t != 0]
        k = int.from_bytes(self.salt[:4], "big")
        pick = []
        if ths:
            for j in range(2):
                pick.append(ths[(k >> (8 * j)) % len(ths)])
        hot = [t for t in hot if t != 0]
        if hot:
            pick = [hot[(k + j) % len(hot)] for j in range(min(3, len(hot)))] + pick[:1]
        g = sorted(set([0.0] + [float(p) for p in pick]))
        grid = [g[0] - 1.3]
        for i, c in enumerate(g):
            if not vocab.get("notie"):
                grid.append(c)
            nxt = g[i + 1] if i + 1 < len(g) else c + 2.6
            grid.append((c + nxt) / 2)
        if hot:
            # a number with a sign of its own reaches both sides of the thresholds
            grid += [-x for x in grid if x > 0 and -x not in grid]
        # threshold 0 always present; keep generic cells likelier than exact equality
        self.grid = np.array(grid)
        self.cov = set()
        self.nodes = 0

    # ---- truth ----
    def bern(self, p, *parts):
        r = h01("bern", self.seed, *parts) < p
        if self.log is not None:
            self.log.append((("b",) + parts, 2))
        if self.salts and self.salts.get(("b",) + parts, 0):
            r = not r
        return r

    def ev(self, v):
        """effective position of a number relative to the thresholds of the program"""
        if isinstance(v, float) and abs(v) < 1e4 and v == int(v):
            return v            # a number the program text determines
        if not self.wild:
            if isinstance(v, float):
                return 0.0 if abs(v) < 1e-8 else v
            return np.where(np.abs(v) < 1e-8, 0.0, v)
        arr = np.asarray(v, dtype=float)
        with np.errstate(over="ignore"):
            q = qround(np.abs(arr)) * np.uint64(0x9E3779B97F4A7C15) + self.saltu
            q ^= q >> np.uint64(29)
            q = q * np.uint64(0xBF58476D1CE4E5B9)
            q ^= q >> np.uint64(32)
        if self.log is not None:
            for i in {0, len(q) - 1}:
                if abs(arr.reshape(-1)[i]) >= 1e-8:
                    self.log.append((("e", int(q[i])), len(self.grid)))
        ix = (q % np.uint64(len(self.grid))).astype(int)
        if self.esalts:
            for i in range(len(q)):
                sft = self.esalts.get(int(q[i]))
                if sft:
                    ix[i] = (ix[i] + sft) % len(self.grid)
        e = self.grid[ix].reshape(arr.shape)
        e = np.where(np.abs(arr) < 1e-8, 0.0, np.sign(arr) * e)
        return float(e) if isinstance(v, float) else e

    def order(self, x, y, xc=None, yc=None):
        """ev(x) vs ev(y) as a signed number; xc, yc: literal constants if any"""
        if isinstance(x, np.ndarray) and x.dtype == bool:
            x = x.astype(float)
        x, y = num(x), num(y)
        if xc is None and isinstance(x, float):
            xc = self.cmap.get(x)
        if yc is None and isinstance(y, float):
            yc = self.cmap.get(y)
        if xc is not None and yc is not None:
            return xc - yc
        if yc is not None:
            return self.ev(x) - yc
        if xc is not None:
            return xc - self.ev(y)
        d = binop("-", x, y)
        return self.ev(d)

    def cmpv(self, op, a, b, na, nb):
        ac = float(cval(na)) if is_num(na) else None
        bc = float(cval(nb)) if is_num(nb) else None
        for v in (a, b):
            if isinstance(v, (str, Seq, Heap)) or v is None:
                return self.bern(.5, "cmp", *sorted([dig(a), dig(b)])) ^ (op in (">", ">=")) ^ (dig(a) > dig(b))
        o = self.order(a, b, ac, bc)
        r = o < 0 if op == "<" else o > 0 if op == ">" else o <= 0 if op == "<=" else o >= 0
        return bool(r) if isinstance(o, float) else r

    def isnone(self, v):
        if v is None:
            return True
        if isinstance(v, (Seq, Heap, Store, str, bool)):
            return False
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return False
        return self.bern(.3, "none", dig(v))

    def pick(self, v, kind):
        """which literal (string / enum / type) an unknown is taken to equal"""
        voc = self.vocab[kind]
        d = dig(v)
        # the vocabulary a value is compared to is small: draw from the part of it seen with this value first
        k = int(h01("pick", kind, self.seed, d) * (len(voc) + 1))
        if self.log is not None:
            self.log.append((("p", kind, d), len(voc) + 1))
        if self.salts:
            k = (k + self.salts.get(("p", kind, d), 0)) % (len(voc) + 1)
        return voc[k] if k < len(voc) else None

    def eqv(self, a, b, na, nb):
        for x, y, nx, ny in ((a, b, na, nb), (b, a, nb, na)):
            if y is None:
                return self.isnone(x)
            if isinstance(y, Str) or (isinstance(y, Opq) and y.tag == "enum"):
                key = str(y) if isinstance(y, Str) else y.d
                if isinstance(x, Str) or (isinstance(x, Opq) and x.tag == "enum"):
                    return dig(x) == dig(y)
                if self.isnone(x):
                    return False
                return self.pick(x, "strs") == key
            if isinstance(y, bool) and not isinstance(x, (bool, np.ndarray)):
                return self.truth(x) == y
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Seq, Heap, Store, Opq)) or isinstance(b, (Seq, Heap, Store, Opq)):
            da, db = sorted((dig(a), dig(b)))
            if da == db:
                return True
            return self.bern(.35, "eq", da, db)
        x, y = self.asbool(a), self.asbool(b)
        if x is not None and y is not None:
            return x == y
        ac = float(cval(na)) if is_num(na) else None
        bc = float(cval(nb)) if is_num(nb) else None
        o = self.order(a, b, ac, bc)
        r = o == 0
        return bool(r) if isinstance(o, float) else r

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Seq):
            return len(v.items) > 0
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return bool(v.reshape(-1)[0])
        if isinstance(v, float):
            return self.ev(v) != 0
        if self.isnone(v):
            return False
        # an unknown container: true if it is not empty (same number as len() of it)
        return self.ev(scal(h("len", self.seed, dig(v)))) != 0

    # ---- evaluation ----
    def env_key(self, n, env):
        if not n.free:
            return n.id
        return (n.id,) + tuple(env[f][1] for f in sorted(n.free) if f in env)

    def val(self, n, env):
        k = self.env_key(n, env)
        m = self.memo
        if k in m:
            return m[k]
        self.nodes += 1
        if self.deadline is not None and not self.nodes & 127 and time.time() > self.deadline:
            raise Late()
        v = self.go(n, env)
        if n.id in self.scal and not isinstance(v, float):
            v = scal(dig(v))
        m[k] = v
        return v

    def D(self, n, env):
        return dig(self.val(n, env))

    def uf(self, n, env, *extra, scalar=False):
        d = h(n.op, repr(n.attr) if n.attr is not None else "", *extra, *[self.D(a, env) for a in n.args])
        return scal(d) if scalar else Opq(d)

    def go(self, n, env):
        return getattr(self, "o_" + n.op, self.o_default)(n, env)

    def o_default(self, n, env):
        return self.uf(n, env)

    def o_const(self, n, env):
        t, v = n.attr
        if t == "num":
            v = float(v)
            if v == 0 or (1e-3 <= abs(v) <= 1e4):
                self.cmap[v] = v
                return v
            # tiny and huge constants: an own scale per order of magnitude, so that small multiples stay multiples
            e = math.floor(math.log10(abs(v)) + 1e-9) if math.isfinite(v) else repr(v)
            m = float("%.12g" % (abs(v) / 10.0 ** e)) if math.isfinite(v) else 1.0
            r = math.copysign(m * scal(h("const", self.seed, repr(e))), v)
            self.cmap[r], self.cmap[-r] = v, -v
            return r
        if t == "bool":
            return v
        if t == "NoneType":
            return None
        if t == "str":
            return Str(v)
        return Opq(h("const", t, repr(v)))

    def o_sym(self, n, env):
        name, sort = n.attr
        if name == "undef":
            self.undef = True
        d = h("sym", self.seed, name)
        if sort == "bool":
            return self.bern(.5, "boolsym", name)
        if sort == "str":
            return Opq(d, "str")
        if sort in SC:
            return scal(d)
        return mat(d)

    def o_attr0(self, n, env):
        return self.uf(n, env)

    def bound(self, n, env, ids, s):
        lv = 1 + max([env[f][2] for f in n.free if f in env], default=-1)
        e = dict(env)
        for j, i in enumerate(ids):
            d = h("idx", self.seed, lv, j, s)
            e[i] = (scal(d), ("x", lv, j, s), lv)
        return e

    def o_idx(self, n, env):
        if n.attr in env:
            return env[n.attr][0]
        return Opq(h("freeidx", self.seed))

    def o_carry(self, n, env):
        if n.attr[0] in env:
            return env[n.attr[0]][0]
        return Opq(h("freecarry", self.seed))

    def o_enum(self, n, env):
        return Opq(h("enum", n.attr), "enum")

    def o_bin(self, n, env):
        op = n.attr
        a, b = self.val(n.args[0], env), self.val(n.args[1], env)
        if op in ("&", "|", "^"):
            x, y = self.asbool(a), self.asbool(b)
            if x is not None and y is not None:
                try:
                    r = (x & y) if op == "&" else (x | y) if op == "|" else (x ^ y)
                    return r if isinstance(r, np.ndarray) else bool(r)
                except ValueError:
                    pass
            return Opq(h("bin", op, *sorted((dig(a), dig(b)))))
        if op in ("%", "//"):
            return self.intop(op, a, b)
        if op == "+" and (isstr(a) or isstr(b)):
            return self.strcat([a, b])
        if op == "+" and isinstance(a, Seq) and isinstance(b, Seq):
            if a.kind == b.kind:
                return Seq(a.kind, a.items + b.items)
        if op == "+" and (iscat(a) or iscat(b)):
            return self.join_lists([a, b])
        if op == "*" and (isinstance(a, Seq) or isinstance(b, Seq)):
            return Opq(h("seqrep", *sorted((dig(a), dig(b)))))
        if op not in ("+", "-", "*", "/", "**", "@"):
            return Opq(h("bin", op, dig(a), dig(b)))
        return binop(op, a, b)

    def intop(self, op, a, b):
        d = h("bin", op, dig(a), dig(b))
        return scal(d) if isinstance(a, float) and isinstance(b, float) else Opq(d)

    def strcat(self, vs):
        """concatenation of text: adjacent literals are one literal, nesting does not matter"""
        out = []
        for v in vs:
            ps = v.tag[1] if isinstance(v, Opq) and isinstance(v.tag, tuple) and v.tag[0] == "scat" else [str(v)] if isinstance(v, Str) else [dig(v)]
            for p in ps:
                if isinstance(p, str):
                    if not p:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                        continue
                out.append(p)
        if all(isinstance(p, str) for p in out):
            return Str("".join(out))
        return Opq(h("strcat", *[h("lit", p) if isinstance(p, str) else p for p in out]), ("scat", out))

    def asbool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return v
        return None

    def o_un(self, n, env):
        v = self.val(n.args[0], env)
        if n.attr == "neg":
            x = num(v)
            return -x
        b = self.asbool(v)
        if b is not None:
            return (not b) if isinstance(b, bool) else ~b
        return Opq(h("inv", dig(v)))

    def o_cmp(self, n, env):
        op = n.attr
        na, nb = n.args
        a, b = self.val(na, env), self.val(nb, env)
        if op in ("==", "is"):
            return self.eqv(a, b, na, nb)
        if op in ("!=", "isnot"):
            r = self.eqv(a, b, na, nb)
            return ~r if isinstance(r, np.ndarray) else not r
        if op in ("in", "notin"):
            if isinstance(b, Seq) and len(b.items) == 0:
                r = False
            elif nb.op in ("list", "tuple") or (nb.op == "call" and nb.attr[0] == "set_lit"):
                r = False
                for q in nb.args:
                    x = self.eqv(a, self.val(q, env), na, q)
                    if x if isinstance(x, bool) else bool(x.reshape(-1)[0]):
                        r = True
                        break
            else:
                r = self.bern(.5, "in", dig(a), dig(b))
            return r if op == "in" else not r
        return self.cmpv(op, a, b, na, nb)

    def o_not(self, n, env):
        return not self.cond(n.args[0], env)

    def o_and(self, n, env):
        for a in n.args:
            if not self.cond(a, env):
                return False
        return True

    def o_or(self, n, env):
        for a in n.args:
            if self.cond(a, env):
                return True
        return False

    def cond(self, c, env):
        t = self.truth(self.val(c, env))
        if self.want and self.want.get(c.id, t) != t:
            raise Missed(c, env)
        return t

    def o_ite(self, n, env):
        t = self.cond(n.args[0], env)
        self.cov.add((n.id, t))
        return self.val(n.args[1 if t else 2], env)

    def o_list(self, n, env):
        return Seq("list", [self.val(a, env) for a in n.args])

    def o_tuple(self, n, env):
        return Seq("tuple", [self.val(a, env) for a in n.args])

    def o_dict(self, n, env):
        it = sorted([(self.D(k, env), self.val(v, env)) for k, v in zip(n.attr, n.args)], key=lambda t: t[0])
        return Store(Opq(h("dict")), dict(it))

    def o_copy(self, n, env):
        return self.val(n.args[0], env)

    # -- indexing
    def rowsel(self, d, m):
        b = hashlib.blake2b(d, key=self.salt, digest_size=K).digest()
        return [x % m for x in b]

    def o_slice(self, n, env):
        v = [self.val(a, env) for a in n.args]
        if v[2] is None and v[1] is None and (v[0] is None or isinstance(v[0], float) and v[0] == 0.0):
            return Opq(b"fullslice")
        if v[0] is None:
            v[0] = 0.0
        if isinstance(v[2], float) and v[2] == 1.0:
            v[2] = None
        return Opq(h("slice", *[dig(x) for x in v]))

    def o_getitem(self, n, env):
        x, i = self.val(n.args[0], env), self.val(n.args[1], env)
        if n.args[0].op == "sym" and n.args[0].attr[1] in ("array", "list") and core.is_int(n.args[1]) and cval(n.args[1]) >= 0 and not self.undef and n.args[0].id in self.vocab.get("lens", ()):
            from . import simp
            if not self.cond(simp.cmp("<", n.args[1], core.mk("len", (n.args[0],))), env):
                self.undef = True       # reading past the end
        q = n.args[1] if n.args[1].op == "slice" else n.args[1].args[0] if n.args[1].op == "tuple" and n.args[1].args else None
        if q is not None and q.op == "slice" and q.args[1] is not core.NONEN and not isinstance(x, (Seq, str)):
            hi = self.val(q.args[1], env)
            if isinstance(hi, float) and hi == self.val(core.mk("len", (n.args[0],)), env):
                q = self.val(core.mk("slice", (q.args[0], core.NONEN, q.args[2])), env)
                i = q if n.args[1].op == "slice" else Seq("tuple", [q] + i.items[1:])
        return self.getitem(x, i, n.args[1])

    def getitem(self, x, i, ni=None):
        if isinstance(x, Seq) and ni is not None and core.is_int(ni):
            k = cval(ni)
            if -len(x.items) <= k < len(x.items):
                return x.items[k]
        if isinstance(x, Seq) and isinstance(i, float) and i == int(i) and -len(x.items) <= i < len(x.items):
            return x.items[int(i)]
        if isinstance(x, Store):
            d = dig(i)
            if d in x.ent:
                return x.ent[d]
            return Opq(h("getst", dig(x), d))
        if isinstance(x, (Seq, Heap, str)) or x is None:
            return Opq(h("get", dig(x), dig(i)))
        isop = isinstance(x, Opq)
        a = num(x)
        if isinstance(a, float):
            return Opq(h("get", dig(x), dig(i)))
        if isinstance(i, Seq) and i.kind == "tuple":
            parts = [p for p in i.items if p is not None]
        else:
            parts = [i]
        if all(isinstance(p, Opq) and p.d == b"fullslice" for p in parts):
            return x
        if len(parts) > 2 or a.shape != (K, K):
            if a.ndim == 2 and len(parts) <= 2:
                fl = a.reshape(-1)
                s = self.rowsel(h("fl", *[dig(p) for p in parts]), len(fl))
                return fl[s].reshape(-1, 1)
            return Opq(h("get", dig(x), *[dig(p) for p in parts]))
        bm = parts[0]
        if len(parts) == 1 and isinstance(bm, np.ndarray) and bm.dtype == bool and bm.shape == a.shape:
            # rows kept by a mask: selection keyed by the mask
            pass
        r = a
        for ax, p in enumerate(parts):
            if isinstance(p, Opq) and p.d == b"fullslice":
                continue
            s = self.rowsel(h("ax%d" % ax, dig(p)), K)
            if len(set(s)) == 1:
                s[0] = (s[0] + 1) % K
            r = r[s] if ax == 0 else r[:, s]
        return r.copy()

    def o_store(self, n, env):
        x, i, v = (self.val(a, env) for a in n.args)
        return self.store(x, i, v)

    def store(self, x, i, v):
        if isinstance(i, np.ndarray) and i.dtype == bool and not isinstance(x, (Seq, Store, Heap)):
            a, w = num(x), num(v)
            try:
                return np.where(i, w, a)
            except ValueError:
                pass
        if isinstance(i, Opq) and i.d == b"fullslice" and isinstance(v, (float, np.ndarray)):
            return v if isinstance(v, np.ndarray) else v
        d = dig(i)
        if isinstance(x, Store):
            e = dict(x.ent)
            e[d] = v
            return Store(x.base, e)
        return Store(x, {d: v})

    def o_del(self, n, env):
        return self.uf(n, env)

    def stripshape(self, n):
        while True:
            if n.op == "un" or (n.op == "call" and n.attr[0] in ELEM) or (n.op == "call" and n.attr[0] in ("np.abs", "np.isnan", "np.isinf", "np.tocsc", "np.tocsr", "np.toarray", "np.array")) and len(n.args) == 1:
                n = n.args[0]
            elif n.op == "bin" and n.attr in ("+", "-", "*", "/", "**") and n.args[1].op == "const":
                n = n.args[0]
            elif n.op == "bin" and n.attr in ("+", "-", "*", "/", "**") and n.args[0].op == "const":
                n = n.args[1]
            elif n.op == "copy":
                n = n.args[0]
            elif n.op == "store":
                n = n.args[0]
            else:
                return n

    def o_len(self, n, env):
        a = self.stripshape(n.args[0])
        v = self.val(a, env)
        if isinstance(v, Seq):
            return float(len(v.items))
        return scal(h("len", self.seed, dig(v)))

    def o_shape(self, n, env):
        a = self.stripshape(n.args[0])
        return Opq(h("shape", dig(self.val(a, env))))

    def o_aattr(self, n, env):
        a = self.stripshape(n.args[0])
        d = h("aattr", n.attr, dig(self.val(a, env)))
        return scal(d) if n.attr in ("size", "ndim", "nnz") else Opq(d)

    def o_rlen(self, n, env):
        return self.uf(n, env, scalar=True)

    # -- binders
    def o_sum(self, n, env):
        cnt = self.D(n.args[0], env)
        acc = 0.0
        for s in range(2):
            e = self.bound(n, env, [n.attr[0]], s)
            b = num(self.val(n.args[1], e))
            w = scal(h("w", cnt, s))
            acc = binop("+", acc, binop("*", w, b))
        return acc

    def o_map(self, n, env):
        parts = [self.D(n.args[0], env)]
        for s in range(2):
            e = self.bound(n, env, [n.attr[0]], s)
            if len(n.args) == 3:
                c = self.cond(n.args[2], e)
                parts.append(b"c1" if c else b"c0")
                if not c:
                    continue
            parts.append(self.D(n.args[1], e))
        return Opq(h("map", *parts))

    def o_flat(self, n, env):
        parts = [self.D(n.args[0], env)]
        for s in range(2):
            e = self.bound(n, env, [n.attr[0]], s)
            parts.append(self.D(n.args[1], e))
        return Opq(h("flat", *parts))

    def o_cat(self, n, env):
        vs = []

        def fl(x):
            if x.op == "cat":
                fl(x.args[0])
                fl(x.args[1])
            else:
                vs.append(self.val(x, env))
        fl(n)
        return self.join_lists(vs)

    def join_lists(self, vs):
        out = []
        for v in vs:
            if isinstance(v, Seq):
                out.extend(v.items)
            elif iscat(v):
                out.extend(v.tag[1])
            else:
                out.append(Part(h("part", dig(v))))
        if not any(isinstance(x, Part) for x in out):
            return Seq("list", out)
        return Opq(h("cat", *[dig(x) for x in out]), ("cat", tuple(out)))

    def o_last(self, n, env):
        e = dict(env)
        m = num(self.val(n.args[0], env))
        v = binop("-", m, 1.0)
        lv = 1 + max([env[f][2] for f in n.free if f in env], default=-1)
        e[n.attr[0]] = (v, ("l", dig(v)), lv)
        return self.val(n.args[1], e)

    def o_scatter(self, n, env):
        x = self.val(n.args[0], env)
        cnt = self.D(n.args[1], env)
        if isinstance(x, Store):
            base, ent = x.base, dict(x.ent)
        else:
            base, ent = x, {}
        for s in range(2):
            e = self.bound(n, env, [n.attr[0]], s)
            ent[h("sc", cnt, self.D(n.args[2], e))] = self.val(n.args[3], e)
        return Store(base, ent)

    def o_lam(self, n, env):
        e = self.bound(n, env, list(n.attr[0]), 0)
        return Opq(h("lam", len(n.attr[0]), self.D(n.args[0], e)))

    def o_fold(self, n, env):
        L, cids, names, which = n.attr
        k = len(cids)
        gk = ("fold", L) + tuple(a.id for a in n.args) + tuple(env[f][1] for f in sorted(n.free) if f in env)
        g = self.memo.get(gk)
        if g is None:
            g = self.fold_group(n, env, k, cids, L)
            self.memo[gk] = g
        if which == "retc":
            return self.bern(.5, "retc", g["exit"])
        if which == "retv":
            return Opq(h("retv", g["exit"], g["retv"]))
        return Opq(h("foldv", g["exit"], g["col"][which]))

    def fold_group(self, n, env, k, cids, L):
        cnt = self.D(n.args[0], env)
        brk, retc, retv = n.args[1:4]
        inits, bodies = n.args[4:4 + k], n.args[4 + k:]
        iv = [self.val(x, env) for x in inits]
        col = [dig(v) for v in iv]
        heapattr = [v.attr if isinstance(v, Heap) else None for v in iv]
        scalar = [isinstance(v, float) for v in iv]
        ex = b""
        rv = b""
        R = 3
        for r in range(R):
            e = self.bound(n, env, [L], 0)
            lv = e[L][2]
            e[L] = (scal(h("fidx", self.seed, lv, r)), ("fx", lv, r), lv)
            for c, d, ha, sc in zip(cids, col, heapattr, scalar):
                dd = h("carry", self.seed, r, d)
                v = Heap(dd, {}, ha) if ha else scal(dd) if sc else mat(dd)
                e[c] = (v, ("c", dd), lv)
            nb = [self.D(b, e) for b in bodies]
            b = self.truth(self.val(brk, e)) if brk is not core.FALSE else False
            rc = self.truth(self.val(retc, e)) if retc is not core.FALSE else False
            # numbers of the exit conditions: keyed by every wild choice through col of next round
            ex = h("ex", ex, b"B" if b else b"b", b"R" if rc else b"r")
            rv = h(rv, self.D(retv, e) if rc else b"-")
            col = [h("col", c, x) for c, x in zip(col, nb)]
        return {"col": col, "exit": h(cnt, ex), "retv": rv}

    # -- heap
    def o_heap0(self, n, env):
        return Heap(h("heap0", n.attr), {}, n.attr)

    def idh(self, n, env):
        r = n
        while r.op in ("getitem", "sel"):
            r = r.args[0] if r.op == "getitem" else r.args[1]
        if r.op == "ite":
            if r is n:
                return self.idh(n.args[1 if self.truth(self.val(n.args[0], env)) else 2], env)
        if r.op == "copy":
            if n is r:
                return h("idcopy", self.idh(n.args[0], env), n.attr)
            b = n.args[0] if n.op == "getitem" else n.args[1]
            return h("idpart", n.op, self.idh(b, env), self.D(n.args[1], env) if n.op == "getitem" else n.attr)
        return self.D(n, env)

    def o_hstore(self, n, env):
        hp = self.val(n.args[0], env)
        v = self.val(n.args[2], env)
        if not isinstance(hp, Heap):
            hp = Heap(dig(hp), {}, n.attr)
        e = dict(hp.ent)
        e[self.idh(n.args[1], env)] = v
        return Heap(hp.base, e, n.attr)

    def o_heapcall(self, n, env):
        return Heap(h("heapcall", n.attr, self.D(n.args[0], env), self.D(n.args[1], env)), {}, n.attr)

    def o_sel(self, n, env):
        hp = self.val(n.args[0], env)
        if isinstance(hp, Heap):
            i = self.idh(n.args[1], env)
            if i in hp.ent:
                return hp.ent[i]
            b = hp.base
            if hp.ent and any(True for _ in hp.ent):
                # other objects written: may alias only if same number, already handled
                pass
        else:
            b = dig(hp)
        if core.ASORTS.get(n.attr) == "bool":
            return self.bern(.5, "boolsel", n.attr, b, self.D(n.args[1], env))
        if core.ASORTS.get(n.attr) == "float":
            return scal(h("sel", n.attr, b, self.D(n.args[1], env)))
        return Opq(h("sel", n.attr, b, self.D(n.args[1], env)))

    # -- objects
    def o_obj(self, n, env):
        return Opq(h("obj", n.attr[0], *[p for k, a in zip(n.attr[1], n.args) for p in (k, self.D(a, env))]))

    def o_isinst(self, n, env):
        v = self.val(n.args[0], env)
        c = n.attr
        if v is None:
            return c == "NoneType"
        if isinstance(v, Str):
            return c == "str"
        if isinstance(v, Seq):
            return c == v.kind
        if self.isnone(v):
            return False
        p = self.pick(v, "types")
        return p is not None and c in self.mro(p)

    def o_exc(self, n, env):
        return self.bern(.4, "exc", str(n.attr), *sorted({self.D(a, env) for a in n.args}))

    def o_fstr(self, n, env):
        return self.strcat([self.val(a, env) for a in n.args])

    def o_range(self, n, env):
        return Opq(h("range", *[self.D(a, env) for a in n.args]))

    def o_apply(self, n, env):
        return self.uf(n, env)

    # -- library calls
    def o_call(self, n, env):
        name, kw = n.attr
        npos = len(n.args) - len(kw)
        args = n.args
        if name in ELEM and len(args) == 1:
            return ELEM[name](self.val(args[0], env))
        f = getattr(self, "c_" + name.replace(".", "_"), None)
        if f is not None:
            r = f(n, args, kw, env)
            if r is not _NOLAW:
                return r
        if name in IDENT and npos >= 1:
            a0 = args[0]
            v = self.val(a0, env)
            if a0.op == "tuple" and name.startswith("scp.sparse"):
                return self.uf(n, env)
            if "order" in kw:
                return self.uf(n, env)
            if name == "np.reshape" and not plain_reshape(args[1:]):
                return self.uf(n, env)
            if name in ("list", "np.tolist", "tuple", "iter", "float", "np.float64") or isinstance(v, (float, np.ndarray, Opq, Seq, Store)):
                if "dtype" in kw or (name in ("np.array",) and npos > 1):
                    pass
                return v
        if name in EYE:
            return eye(self.D(args[0], env) if args else None)
        if name in ("np.zeros", "np.zeros_like"):
            return 0.0
        if name in ("np.ones", "np.ones_like"):
            return 1.0
        return self.uf(n, env)

    def axis(self, args, kw):
        """(kind) None | int | 'other'"""
        npos = len(args) - len(kw)
        ax = None
        if "axis" in kw:
            ax = args[npos + kw.index("axis")]
        elif npos == 2:
            ax = args[1]
        if any(k not in ("axis", "keepdims") for k in kw) or npos > 2:
            return "other"
        if ax is None or ax is core.NONEN:
            return None
        if core.is_int(ax):
            return cval(ax)
        return "other"

    def c_np_sum(self, n, args, kw, env):
        ax = self.axis(args, kw)
        if ax == "other":
            return _NOLAW
        if args[0].op == "map" and ax is None:
            m = args[0]
            acc = 0.0
            cnt = self.D(m.args[0], env)
            for s in range(2):
                e = self.bound(m, env, [m.attr[0]], s)
                if len(m.args) == 3 and not self.truth(self.val(m.args[2], e)):
                    continue
                acc = binop("+", acc, binop("*", scal(h("w", cnt, s)), num(self.val(m.args[1], e))))
            return acc
        v = self.val(args[0], env)
        if isinstance(v, Seq) and ax in (None, 0):
            acc = 0.0
            for x in v.items:
                acc = binop("+", acc, num(x))
            return acc
        a = num(v)
        if isinstance(a, float):
            return a
        if ax is None:
            return float(a.sum())
        if a.ndim == 2 and ax in (0, 1, -1):
            return a.sum(axis=ax, keepdims=True)
        return _NOLAW
    c_sum = c_np_sum

    def c_np_mean(self, n, args, kw, env):
        ax = self.axis(args, kw)
        if ax == "other":
            return _NOLAW
        v = self.val(args[0], env)
        a = num(v)
        L = scal(h("len", self.seed, dig(self.val(self.stripshape(args[0]), env)))) if ax in (None, 0) else scal(h("len1", self.seed, dig(v)))
        if isinstance(v, Seq):
            return _NOLAW
        if isinstance(a, float):
            return a
        if ax is None:
            return float(a.sum()) / L
        if a.ndim == 2 and ax in (0, 1, -1):
            return a.sum(axis=ax, keepdims=True) / L
        return _NOLAW

    def c_np_transpose(self, n, args, kw, env):
        if len(args) != 1:
            return _NOLAW
        v = self.val(args[0], env)
        a = num(v)
        return a if isinstance(a, float) else a.T

    def c_np_trace(self, n, args, kw, env):
        a = num(self.val(args[0], env))
        if len(args) == 1 and isinstance(a, np.ndarray) and a.shape == (K, K):
            return float(np.trace(a))
        return _NOLAW

    def c_np_diagonal(self, n, args, kw, env):
        a = num(self.val(args[0], env))
        if len(args) == 1 and isinstance(a, np.ndarray) and a.shape == (K, K):
            return np.diagonal(a).reshape(-1, 1).copy()
        return _NOLAW

    def c_np_linalg_inv(self, n, args, kw, env):
        a = num(self.val(args[0], env))
        if len(args) == 1 and isinstance(a, np.ndarray) and a.shape == (K, K):
            try:
                r = np.linalg.inv(a)
                if np.all(np.isfinite(r)) and np.abs(r).max() < 1e4:
                    return r
            except np.linalg.LinAlgError:
                pass
        return _NOLAW

    def c_np_linalg_norm(self, n, args, kw, env):
        a = num(self.val(args[0], env))
        if len(args) != 1:
            return _NOLAW
        return math.sqrt(float(np.sum(np.square(a))))

    def extremum(self, n, args, env, mx):
        a, b = num(self.val(args[0], env)), num(self.val(args[1], env))
        ac = float(cval(args[0])) if is_num(args[0]) else None
        bc = float(cval(args[1])) if is_num(args[1]) else None
        if dig(b) < dig(a):
            a, b, ac, bc = b, a, bc, ac       # one choice where an interpretation takes them to be equal
        o = self.order(a, b, ac, bc)
        c = (o >= 0) if mx else (o <= 0)
        if isinstance(o, float):
            return a if c else b
        return np.where(c, a, b)

    def c_np_maximum(self, n, args, kw, env):
        return self.extremum(n, args, env, True) if len(args) == 2 else _NOLAW

    def c_np_minimum(self, n, args, kw, env):
        return self.extremum(n, args, env, False) if len(args) == 2 else _NOLAW

    def c_np_clip(self, n, args, kw, env):
        if len(args) != 3 or kw:
            return _NOLAW
        a = num(self.val(args[0], env))
        for q, mx in ((args[1], True), (args[2], False)):
            b = self.val(q, env)
            if b is None:
                continue
            bc = float(cval(q)) if is_num(q) else None
            o = self.order(a, num(b), None, bc)
            c = (o >= 0) if mx else (o <= 0)
            a = (a if c else num(b)) if isinstance(o, float) else np.where(c, a, num(b))
        return a

    def c_np_abs(self, n, args, kw, env):
        a = num(self.val(args[0], env))
        o = self.ev(a)
        if isinstance(o, float):
            return a if o >= 0 else -a
        return np.where(o >= 0, a, -a)

    def c_np_sign(self, n, args, kw, env):
        o = self.ev(num(self.val(args[0], env)))
        return float(np.sign(o)) if isinstance(o, float) else np.sign(o)

    def c_np_where(self, n, args, kw, env):
        if len(args) != 3:
            return _NOLAW
        c = self.val(args[0], env)
        b = self.asbool(c)
        if b is None:
            b = self.truth(c)
        x, y = self.val(args[1], env), self.val(args[2], env)
        if isinstance(b, bool):
            return x if b else y
        try:
            return np.where(b, num(x), num(y))
        except ValueError:
            return _NOLAW

    def rep2(self, m):
        f = m.reshape(-1)
        return bool(f[0]), bool(f[-1])

    def c_np_any(self, n, args, kw, env):
        if len(args) != 1:
            return _NOLAW
        v = self.asbool(self.val(args[0], env))
        if v is None:
            return self.truth(Opq(h("any", self.D(args[0], env))))
        if isinstance(v, bool):
            return v
        a, b = self.rep2(v)
        return a or b

    def c_np_all(self, n, args, kw, env):
        if len(args) != 1:
            return _NOLAW
        v = self.asbool(self.val(args[0], env))
        if v is None:
            return self.truth(Opq(h("all", self.D(args[0], env))))
        if isinstance(v, bool):
            return v
        a, b = self.rep2(v)
        return a and b
    c_any, c_all = c_np_any, c_np_all

    def kindmask(self, tag, args, env, p):
        a = num(self.val(args[0], env))
        if isinstance(a, float):
            return self.bern(p, tag, dig(a))
        q = [self.bern(p, tag, dig(float(x))) for x in a.reshape(-1)]
        return np.array(q).reshape(a.shape)

    def c_np_isnan(self, n, args, kw, env):
        return self.kindmask("nan", args, env, .3) if len(args) == 1 else _NOLAW

    def c_np_isinf(self, n, args, kw, env):
        return self.kindmask("inf", args, env, .3) if len(args) == 1 else _NOLAW

    def c_bool(self, n, args, kw, env):
        return self.truth(self.val(args[0], env))

    def c_np_multiply(self, n, args, kw, env):
        return binop("*", self.val(args[0], env), self.val(args[1], env)) if len(args) == 2 else _NOLAW

    def c_scp_special_polygamma(self, n, args, kw, env):
        if len(args) != 2 or not core.is_int(args[0]):
            return _NOLAW
        k = cval(args[0])
        return elem(lambda x: sps.polygamma(k, np.where(x > 0, x, np.nan)), "polygamma%d" % k, 1e5)(self.val(args[1], env))

    def c_np_arange(self, n, args, kw, env):
        if kw or len(args) > 3:
            return _NOLAW
        a = [self.val(x, env) for x in args]
        a = [0.0, a[0], 1.0] if len(a) == 1 else a + [1.0] if len(a) == 2 else a
        return Opq(h("range", *[dig(x) for x in a]))

    def c_np_astype(self, n, args, kw, env):
        if len(args) == 2 and args[1].op == "lib" and args[1].attr in ("float", "np.float64"):
            return self.val(args[0], env)
        return _NOLAW

    def c_np_pi(self, n, args, kw, env):
        return math.pi

    def o_lib(self, n, env):
        if n.attr in ("np.pi", "math.pi"):
            return math.pi
        if n.attr in ("np.inf",):
            return Opq(h("const", "inf"))
        if n.attr in ("np.e", "math.e"):
            return math.e
        return Opq(h("lib", n.attr))


# closed-form densities (library semantics, used so that a density call and its formula get the same number)
def _dist(formula, k):
    def go(self, n, args, kw, env):
        if kw or len(args) != k:
            return _NOLAW
        try:
            v = [num(self.val(a, env)) for a in args]
            with np.errstate(all="ignore"):
                r = formula(*v)
        except (ValueError, ZeroDivisionError, OverflowError):
            return _NOLAW
        if isinstance(r, np.ndarray):
            return r if np.all(np.isfinite(r)) else _NOLAW
        r = float(r)
        return r if math.isfinite(r) else _NOLAW
    return go


def _lognorm(x, m, s):
    return -0.5 * ((x - m) / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)


Interp.c_scp_stats_norm_logpdf = _dist(_lognorm, 3)
Interp.c_scp_stats_norm_pdf = _dist(lambda x, m, s: np.exp(_lognorm(x, m, s)), 3)
Interp.c_scp_stats_norm_cdf = _dist(lambda x, m, s: sps.ndtr((x - m) / s), 3)
Interp.c_scp_stats_norm_logcdf = _dist(lambda x, m, s: sps.log_ndtr((x - m) / s), 3)
Interp.c_scp_stats_gamma_logpdf = _dist(lambda x, a, l, s: (a - 1) * np.log((x - l) / s) - (x - l) / s - sps.gammaln(a) - np.log(s), 4)
Interp.c_scp_stats_binom_logpmf = _dist(lambda k, n, p, l: sps.gammaln(n + 1) - sps.gammaln(k + 1) - sps.gammaln(n - k + 1) + k * np.log(p) + (n - k) * np.log(1 - p), 4)
Interp.c_scp_stats_poisson_logpmf = _dist(lambda k, m, l: k * np.log(m) - m - sps.gammaln(k + 1), 3)


def vocab(roots):
    nums, strs, types, lens = set(), set(), set(), set()
    for n in core.walk(roots):
        if n.op == "cmp":
            for a in n.args:
                if is_num(a):
                    nums.add(float(cval(a)))
                elif a.op == "const" and a.attr[0] == "str":
                    strs.add(a.attr[1])
                elif a.op == "enum":
                    strs.add(h("enum", a.attr))
        elif n.op == "len":
            lens.add(n.args[0].id)
        elif n.op == "isinst":
            types.add(n.attr)
        elif n.op == "call" and n.attr[0] in ("np.clip", "np.maximum", "np.minimum"):
            for a in n.args:
                if is_num(a):
                    nums.add(float(cval(a)))
    return {"nums": sorted(nums), "strs": sorted(strs, key=lambda s: (isinstance(s, bytes), s)), "types": sorted(types), "lens": lens}
