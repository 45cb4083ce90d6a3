"""Mathematical identities between the expressions a class of functions denotes.

The value graph of a function (front.py) is read as a real-valued expression over a few symbolic observations; an identity between two such expressions (one is
the derivative of the other, one inverts the other, ...) is decided by evaluating both expressions in 50-digit arithmetic at random points of the domain
(Schwartz-Zippel style polynomial/analytic identity testing).  The code itself is never run: only the extracted expression is."""
from __future__ import annotations
import numpy as np
import mpmath as mp
from . import core
from .equiv import Validator

mp.mp.dps = 50


class Cannot(Exception):
    pass


def vec(f, n=1):
    return np.frompyfunc(f, n, 1)


def _real(f):
    def g(*a):
        try:
            r = f(*a)
        except (ZeroDivisionError, ValueError, OverflowError):
            return mp.nan
        return r if not isinstance(r, mp.mpc) else mp.nan
    return g


def _log(x):
    x = mp.mpf(x)
    return mp.log(x) if x > 0 else (-mp.inf if x == 0 else mp.nan)


FUN = {"np.log": _log, "np.exp": mp.exp, "np.sqrt": mp.sqrt, "np.abs": abs, "np.log1p": lambda x: mp.log(1 + x), "np.expm1": lambda x: mp.exp(x) - 1,
       "np.sign": lambda x: mp.mpf((x > 0) - (x < 0)), "np.square": lambda x: x * x, "np.cosh": mp.cosh, "np.sinh": mp.sinh, "np.tanh": mp.tanh, "np.power": lambda x, y: x ** y,
       "scp.special.gammaln": mp.loggamma, "scp.special.loggamma": mp.loggamma, "scp.special.gamma": mp.gamma, "scp.special.digamma": mp.digamma, "scp.special.psi": mp.digamma,
       "scp.special.polygamma": lambda n, x: mp.polygamma(int(n), x), "scp.special.factorial": lambda x: mp.gamma(x + 1), "np.float_power": lambda x, y: x ** y,
       "scp.special.expit": lambda x: 1 / (1 + mp.exp(-x)), "scp.special.logit": lambda p: mp.log(p / (1 - p)), "scp.special.xlogy": lambda x, y: mp.mpf(0) if x == 0 else x * mp.log(y),
       "np.log2": lambda x: mp.log(x) / mp.log(2), "np.log10": mp.log10, "np.reciprocal": lambda x: 1 / x, "abs": abs, "np.negative": lambda x: -x,
       "np.add": lambda x, y: x + y, "np.multiply": lambda x, y: x * y, "np.subtract": lambda x, y: x - y, "np.divide": lambda x, y: x / y, "np.maximum": max, "np.minimum": min,
       "scp.special.betaln": lambda a, b: mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)}
for _k, _v in {"log": "np.log", "exp": "np.exp", "sqrt": "np.sqrt", "lgamma": "scp.special.gammaln"}.items():
    FUN["math." + _k] = FUN[_v]


def _gammapdf(x, a, loc=0, scale=1):
    x = (x - loc) / scale
    return (a - 1) * mp.log(x) - x - mp.loggamma(a) - mp.log(scale)


def _invgauss(x, mu, loc=0, scale=1):
    x = (x - loc) / scale
    return -mp.log(2 * mp.pi * x ** 3) / 2 - ((x - mu) / mu) ** 2 / (2 * x) - mp.log(scale)


def _norm(x, loc=0, scale=1):
    return -((x - loc) / scale) ** 2 / 2 - mp.log(scale) - mp.log(2 * mp.pi) / 2


def _binom(k, n, p):
    return mp.loggamma(n + 1) - mp.loggamma(k + 1) - mp.loggamma(n - k + 1) + (k * mp.log(p) if k else 0) + ((n - k) * mp.log(1 - p) if n != k else 0)


def _tpdf(x, df, loc=0, scale=1):
    x = (x - loc) / scale
    return mp.loggamma((df + 1) / 2) - mp.loggamma(df / 2) - mp.log(mp.pi * df) / 2 - (df + 1) / 2 * mp.log(1 + x * x / df) - mp.log(scale)


def _ncdf(x, loc=0, scale=1):
    return mp.log(mp.ncdf((x - loc) / scale))


def _gcdf(x, a, loc=0, scale=1):
    return mp.log(mp.gammainc(a, 0, (x - loc) / scale, regularized=True))


DIST = {"scp.stats.gamma.logpdf": (_gammapdf, ("x", "a", "loc", "scale")), "scp.stats.invgauss.logpdf": (_invgauss, ("x", "mu", "loc", "scale")), "scp.stats.norm.logpdf": (_norm, ("x", "loc", "scale")),
        "scp.stats.binom.logpmf": (_binom, ("k", "n", "p")), "scp.stats.poisson.logpmf": (lambda k, mu: k * mp.log(mu) - mu - mp.loggamma(k + 1), ("k", "mu")),
        "scp.stats.t.logpdf": (_tpdf, ("x", "df", "loc", "scale")), "scp.stats.norm.logcdf": (_ncdf, ("x", "loc", "scale")), "scp.stats.gamma.logcdf": (_gcdf, ("x", "a", "loc", "scale"))}


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Exprs:
    """evaluates functions of one tree"""

    def __init__(self, repo):
        self.repo = repo
        self.V = Validator(repo, repo)
        self.g = {}

    def graph(self, qual):
        if qual not in self.g:
            o, b = self.V.build("cur", qual) if qual in self.repo.funcs else (None, "no such function")
            self.g[qual] = (o, b)
        o, b = self.g[qual]
        if o is None:
            raise Cannot(f"{qual}: {b}")
        return o

    def method(self, cls, name):
        """the function a method call on an object of the class reaches"""
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for m in self.repo.mods.values():
                if c in m.classes:
                    k = m.classes[c]
                    if name in k.methods:
                        return f"{k.qual}.{name}"
                    todo += k.bases
        raise Cannot(f"{cls}.{name} not found")

    def new(self, cls, **kw):
        """an object with the attributes its constructor gives it for these arguments"""
        q = self.method(cls, "__init__")
        o = self.graph(q)
        env = dict(kw)
        for k, v in o.items():
            if k.startswith("default:") and k[8:] not in env:
                env[k[8:]] = self.ev(v, {"self": Obj(cls, {})})
        me = Obj(cls, {})
        env["self"] = me
        at = {k[5:]: self.ev(v, env) for k, v in o.items() if k.startswith("self.")}
        me.attrs.update(at)
        return me

    def call(self, obj, name, **kw):
        q = self.method(obj.cls, name)
        return self.fn(q, dict(kw, self=obj))

    def fn(self, q, env, out="ret"):
        o = self.graph(q)
        env = dict(env)
        for k, v in o.items():
            if k.startswith("default:") and k[8:] not in env:
                env[k[8:]] = self.ev(v, env)
        for k, v in o.items():
            if k.startswith("raise:"):
                try:
                    if bool(self.ev(v, env)):
                        raise Cannot(f"{q} rejects the arguments")
                except Cannot:
                    pass
        return self.ev(o[out], env)

    def ev(self, n, env, memo=None):
        memo = {} if memo is None else memo
        if n.id in memo and not n.free:
            return memo[n.id]
        r = getattr(self, "o_" + n.op, self.unk)(n, env, memo)
        if not n.free:
            memo[n.id] = r
        return r

    def unk(self, n, env, memo):
        raise Cannot(f"no reading of {n.op} {n.attr if isinstance(n.attr, (str, tuple)) else ''}")

    def o_const(self, n, env, memo):
        v = n.attr[1]
        if n.attr[0] in ("num", "int", "float") or isinstance(v, (int, float)) and not isinstance(v, bool):
            return int(v) if isinstance(v, int) else mp.mpf(v)
        return v

    def o_sym(self, n, env, memo):
        nm = n.attr[0]
        if nm in env:
            return env[nm]
        if nm.startswith("self.") and isinstance(env.get("self"), Obj):
            a = nm[5:]
            o = env["self"]
            if a in o.attrs:
                return o.attrs[a]
        raise Cannot(f"free symbol {nm}")

    def o_sel(self, n, env, memo):
        if n.args[0].op != "heap0":
            raise Cannot("heap")
        o = self.ev(n.args[1], env, memo)
        if isinstance(o, Obj) and n.attr in o.attrs:
            return o.attrs[n.attr]
        raise Cannot(f"attribute {n.attr}")

    def o_enum(self, n, env, memo):
        return ("enum", n.attr)

    def o_bin(self, n, env, memo):
        a, b = self.ev(n.args[0], env, memo), self.ev(n.args[1], env, memo)
        if isinstance(a, list):
            a = np.array(a, dtype=object)
        if isinstance(b, list):
            b = np.array(b, dtype=object)
        op = n.attr
        if op in ("&", "|"):
            return np.logical_and(a, b) if op == "&" else np.logical_or(a, b)
        if op == "@":
            return np.dot(a, b)
        def div(x, y):
            return mp.mpf(x) / mp.mpf(y)
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": _real(div), "**": _real(lambda x, y: mp.mpf(x) ** y), "//": lambda x, y: x // y, "%": lambda x, y: x % y}.get(op)
        if f is None:
            raise Cannot(op)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return vec(f, 2)(a, b)
        return f(a, b)

    def o_un(self, n, env, memo):
        a = self.ev(n.args[0], env, memo)
        if n.attr == "neg":
            return -a
        if n.attr in ("not", "inv", "~"):
            return np.logical_not(a)
        raise Cannot(n.attr)

    def o_not(self, n, env, memo):
        return not self.b(self.ev(n.args[0], env, memo))

    def b(self, v):
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Cannot("truth of an array")
            return bool(v.reshape(-1)[0])
        return bool(v)

    def o_and(self, n, env, memo):
        return all(self.b(self.ev(a, env, memo)) for a in n.args)

    def o_or(self, n, env, memo):
        return any(self.b(self.ev(a, env, memo)) for a in n.args)

    def o_ite(self, n, env, memo):
        c = self.b(self.ev(n.args[0], env, memo))
        return self.ev(n.args[1 if c else 2], env, memo)

    def o_cmp(self, n, env, memo):
        a, b = self.ev(n.args[0], env, memo), self.ev(n.args[1], env, memo)
        op = n.attr
        if op in ("is", "isnot"):
            if isinstance(a, (Obj, np.ndarray)) or isinstance(b, (Obj, np.ndarray)):
                r = a is b
            else:
                r = a == b and type(a) is type(b)
            return r == (op == "is")
        f = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}.get(op)
        if f is None:
            raise Cannot(op)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return vec(f, 2)(a, b).astype(bool)
        return f(a, b)

    def o_isinst(self, n, env, memo):
        a = self.ev(n.args[0], env, memo)
        if isinstance(a, Obj):
            return a.cls == n.attr
        raise Cannot("isinstance")

    def o_obj(self, n, env, memo):
        return Obj(n.attr[0], {k: self.ev(a, env, memo) for k, a in zip(n.attr[1], n.args)})

    def o_list(self, n, env, memo):
        return [self.ev(a, env, memo) for a in n.args]

    def o_tuple(self, n, env, memo):
        return [self.ev(a, env, memo) for a in n.args]

    def o_shape(self, n, env, memo):
        return tuple(np.shape(self.ev(n.args[0], env, memo)))

    def o_len(self, n, env, memo):
        return len(self.ev(n.args[0], env, memo))

    def o_slice(self, n, env, memo):
        return slice(*[None if v is None else int(v) for v in (self.ev(a, env, memo) for a in n.args)])

    def index(self, n, env, memo):
        if n.op == "tuple":
            return tuple(self.index(a, env, memo) for a in n.args)
        v = self.ev(n, env, memo)
        if isinstance(v, np.ndarray) and v.dtype == object:
            v = v.astype(int)
        return int(v) if isinstance(v, mp.mpf) else v

    def o_getitem(self, n, env, memo):
        x = self.ev(n.args[0], env, memo)
        i = self.index(n.args[1], env, memo)
        try:
            return x[i]
        except (IndexError, TypeError) as e:
            raise Cannot(f"index: {e}")

    def o_store(self, n, env, memo):
        x = np.array(self.ev(n.args[0], env, memo), dtype=object, copy=True)
        i = self.index(n.args[1], env, memo)
        v = self.ev(n.args[2], env, memo)
        try:
            x[i] = v
        except (IndexError, ValueError, TypeError) as e:
            raise Cannot(f"store: {e}")
        return x

    def o_idx(self, n, env, memo):
        return env[("b", n.attr)]

    def o_carry(self, n, env, memo):
        return env[("b", n.attr[0])]

    def o_scatter(self, n, env, memo):
        x = np.array(self.ev(n.args[0], env, memo), dtype=object, copy=True)
        for k in range(int(self.ev(n.args[1], env, memo))):
            e = dict(env)
            e[("b", n.attr[0])] = k
            x[self.index(n.args[2], e, {})] = self.ev(n.args[3], e, {})
        return x

    def o_map(self, n, env, memo):
        if len(n.args) != 2:
            raise Cannot("filtered comprehension")
        out = []
        for k in range(int(self.ev(n.args[0], env, memo))):
            e = dict(env)
            e[("b", n.attr[0])] = k
            out.append(self.ev(n.args[1], e, {}))
        return out

    def o_flat(self, n, env, memo):
        out = []
        for k in range(int(self.ev(n.args[0], env, memo))):
            e = dict(env)
            e[("b", n.attr[0])] = k
            out += self.ev(n.args[1], e, {})
        return out

    def o_fold(self, n, env, memo):
        L, cids, names, which = n.attr
        if not isinstance(which, int) or n.args[1] is not core.FALSE or n.args[2] is not core.FALSE:
            raise Cannot("loop with early exit")
        k = len(cids)
        cur = []
        for x in n.args[4:4 + k]:
            try:
                cur.append(self.ev(x, env, memo))
            except Cannot:
                cur.append(None)
        for r in range(int(self.ev(n.args[0], env, memo))):
            e = dict(env)
            e[("b", L)] = r
            for c, v in zip(cids, cur):
                e[("b", c)] = v
            m, new = {}, []
            for j, b in enumerate(n.args[4 + k:]):
                try:
                    new.append(self.ev(b, e, m))
                except Cannot:
                    if j == which:
                        raise
                    new.append(None)
            cur = new
        if cur[which] is None:
            raise Cannot("loop value")
        return cur[which]

    def o_copy(self, n, env, memo):
        return self.ev(n.args[0], env, memo)

    def o_rcall(self, n, env, memo):
        q, names = n.attr
        vals = {}
        for nm, a in zip(names, n.args):
            vals[nm] = self.ev(a, env, memo)
        return self.fn(q, vals)

    def o_mcall(self, n, env, memo):
        name, kws = n.attr
        if name in ("reshape", "flatten", "ravel", "copy", "squeeze") and not kws:
            v = self.ev(n.args[0], env, memo)
            if name == "copy" or not isinstance(v, (np.ndarray, list)):
                return v
            v = np.array(v, dtype=object)
            if name == "squeeze":
                return np.squeeze(v)
            if name != "reshape":
                return v.reshape(-1)
            s = [self.ev(a, env, memo) for a in n.args[1:]]
            s = s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
            return v.reshape([int(x) for x in s])
        o = self.ev(n.args[0], env, memo)
        if isinstance(o, Obj):
            q = self.method(o.cls, name)
            f = self.repo.funcs[q]
            ps = [p.arg for p in f.args.args][1:]
            pos = len(n.args) - 1 - len(kws)
            vals = {p: self.ev(a, env, memo) for p, a in zip(ps, n.args[1:1 + pos])}
            vals.update({k: self.ev(a, env, memo) for k, a in zip(kws, n.args[1 + pos:])})
            return self.fn(q, dict(vals, self=o))
        raise Cannot("method " + name)

    def o_call(self, n, env, memo):
        name, kws = n.attr
        if name in ("np.zeros", "np.ones", "np.zeros_like", "np.ones_like", "np.empty"):
            s = self.ev(n.args[0], env, memo)
            s = np.shape(s) if name.endswith("_like") else s
            v = mp.mpf(1) if "ones" in name else mp.mpf(0)
            a = np.empty(tuple(int(x) for x in s) if isinstance(s, (tuple, list)) else int(s), dtype=object)
            a[...] = v
            return a
        if name in ("np.reshape", "np.flatten", "np.array", "np.asarray", "float", "np.copy", "np.squeeze", "np.ravel"):
            v = self.ev(n.args[0], env, memo)
            if name == "np.reshape":
                s = [self.ev(a, env, memo) for a in n.args[1:]]
                s = s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s
                return np.array(v, dtype=object).reshape([int(x) for x in s])
            if name in ("np.flatten", "np.ravel"):
                return np.array(v, dtype=object).reshape(-1)
            if kws:
                raise Cannot("keywords of " + name)
            if name == "np.squeeze":
                return np.squeeze(np.array(v, dtype=object))
            return np.array(v, dtype=object) if name in ("np.array", "np.asarray") else v
        if name == "np.transpose" and len(n.args) == 1:
            return np.array(self.ev(n.args[0], env, memo), dtype=object).T
        if name == "np.sum":
            v = np.array(self.ev(n.args[0], env, memo), dtype=object)
            ax = self.ev(n.args[1], env, memo) if len(n.args) > 1 else None
            return np.sum(v, axis=None if ax is None else int(ax))
        if name in ("np.isinf", "np.isnan", "np.isfinite"):
            f = {"np.isinf": mp.isinf, "np.isnan": mp.isnan, "np.isfinite": mp.isfinite}[name]
            v = self.ev(n.args[0], env, memo)
            return vec(f)(v).astype(bool) if isinstance(v, np.ndarray) else f(v)
        if name == "int":
            return int(self.ev(n.args[0], env, memo))
        if name == "np.arange":
            return np.array([mp.mpf(i) for i in range(*[int(self.ev(a, env, memo)) for a in n.args])], dtype=object)
        if name == "np.where" and len(n.args) == 3:
            c, a, b = [self.ev(x, env, memo) for x in n.args]
            return np.where(np.array(c).astype(bool), a, b)
        if name in FUN and not kws:
            a = [self.ev(x, env, memo) for x in n.args]
            if any(isinstance(x, np.ndarray) for x in a):
                return vec(_real(FUN[name]), len(a))(*a)
            return _real(FUN[name])(*a)
        if name in DIST:
            f, ps = DIST[name]
            pos = len(n.args) - len(kws)
            vals = dict(zip(ps, [self.ev(a, env, memo) for a in n.args[:pos]]))
            vals.update({k: self.ev(a, env, memo) for k, a in zip(kws, n.args[pos:])})
            if not set(vals) <= set(ps):
                raise Cannot(f"arguments of {name}")
            ks = list(vals)
            g = _real(lambda *xs: f(**dict(zip(ks, [mp.mpf(x) for x in xs]))))
            if any(isinstance(v, np.ndarray) for v in vals.values()):
                return vec(g, len(ks))(*[vals[k] for k in ks])
            return g(*[vals[k] for k in ks])
        if name in ("np.pi",):
            return mp.pi
        raise Cannot("call of " + name)

    def o_lib(self, n, env, memo):
        if n.attr in ("np.pi", "math.pi"):
            return +mp.pi
        if n.attr in ("np.inf",):
            return mp.inf
        if n.attr == "np.nan":
            return mp.nan
        raise Cannot(f"library value {n.attr}")


def col(xs):
    a = np.empty((len(xs), 1), dtype=object)
    for i, x in enumerate(xs):
        a[i, 0] = mp.mpf(x)
    return a


H = mp.mpf(10) ** -14


def deriv(f, x):
    """derivative of an elementwise expression (five-point rule; truncation error below 1e-50)"""
    return (f(x - 2 * H) - 8 * f(x - H) + 8 * f(x + H) - f(x + 2 * H)) / (12 * H)


def flatv(v):
    return [mp.mpf(x) for x in np.array(v, dtype=object).reshape(-1)]


def close(a, b, tol=mp.mpf(10) ** -12):
    a, b = flatv(a), flatv(b)
    if len(a) != len(b):
        if len(a) == 1:
            a = a * len(b)
        elif len(b) == 1:
            b = b * len(a)
        else:
            return False, f"{len(a)} values against {len(b)}"
    for x, y in zip(a, b):
        if mp.isnan(x) or mp.isnan(y) or mp.isinf(x) or mp.isinf(y):
            if (mp.isnan(x) and mp.isnan(y)) or x == y:
                continue
            return False, f"{mp.nstr(x, 8)} against {mp.nstr(y, 8)}"
        if abs(x - y) > tol * (1 + abs(x) + abs(y)):
            return False, f"{mp.nstr(x, 8)} against {mp.nstr(y, 8)}"
    return True, ""
