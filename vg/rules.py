"""Rules of the properties; each registers itself with oblig.rule."""
from __future__ import annotations
import random
from .oblig import rule


def _subclasses(cur, base):
    """concrete classes derived from base, by name"""
    out, more = {base}, True
    while more:
        more = False
        for m in cur.mods.values():
            for c in m.classes.values():
                if c.name not in out and set(c.bases) & out:
                    out.add(c.name)
                    more = True
    return sorted(out - {base})


def _ob(ob, kind, key, qual, fn, tries=6):
    """one identity at several random points"""
    from .ident import Cannot
    cur = ob.cur
    line = cur.funcs[qual].lineno if qual in cur.funcs else 0
    try:
        for t in range(tries if ob.tier == "quick" else tries * 4):
            ok, why = fn(random.Random(f"{ob.seed}:{key}:{t}"))
            if not ok:
                ob.fail(kind, key, qual, line, f"{key}: {why}")
                return
        ob.ok(kind, f"{key} at {tries} random points")
    except Cannot as e:
        ob.dunno(kind, f"{key}: {e}")
    except Exception as e:      # a construct the reading does not cover is never an alarm
        ob.dunno(kind, f"{key}: {type(e).__name__} {e}")


def _unit(r, n=3):
    from .ident import col
    return col([r.uniform(.05, .95) for _ in range(n)])


def _pos(r, n=3, lo=.2, hi=4.):
    from .ident import col
    return col([r.uniform(lo, hi) for _ in range(n)])


def _real_(r, n=3):
    from .ident import col
    return col([r.uniform(-2, 2) for _ in range(n)])


# ---------------------------------------------------------------------------- P01
@rule("P01")
def links(ob):
    from .ident import Exprs, deriv, close, Cannot
    X = Exprs(ob.cur)
    dom = {"Logit": _unit, "LOG": _pos, "LOGb": _pos, "Identity": _real_}
    for c in _subclasses(ob.cur, "Link"):
        if c not in dom:
            ob.dunno("link", f"{c}: no stated domain")
            continue
        def make(r, c=c):
            if c == "LOGb":
                return X.new(c, b=__import__("mpmath").mpf(r.uniform(-.15, .15)))
            return type("O", (), {})() and X_obj(X, c)
        d = dom[c]
        for key, q, f in (
            ("fi inverts f", "fi", lambda r, d=d, m=make: (lambda o, x: close(X.call(o, "fi", eta=X.call(o, "f", mu=x)), x))(m(r), d(r))),
            ("dy1 = f'", "dy1", lambda r, d=d, m=make: (lambda o, x: close(X.call(o, "dy1", mu=x), deriv(lambda z: X.call(o, "f", mu=z), x)))(m(r), d(r))),
            ("dy2 = f''", "dy2", lambda r, d=d, m=make: (lambda o, x: close(X.call(o, "dy2", mu=x), deriv(lambda z: deriv(lambda w: X.call(o, "f", mu=w), z), x)))(m(r), d(r))),
        ):
            try:
                qual = X.method(c, q)
            except Cannot as e:
                ob.dunno("link", str(e))
                continue
            _ob(ob, "link", f"{c}: {key}", qual, f)


def X_obj(X, c):
    from .ident import Obj
    return Obj(c, {})


# ---------------------------------------------------------------------------- P02
@rule("P02")
def families(ob):
    import mpmath as mp
    from .ident import Exprs, deriv, close, col, Obj, Cannot
    X = Exprs(ob.cur)

    def counts(r, n):
        return col([r.randint(0, n) / mp.mpf(n) for _ in range(3)])
    fam = {"Binomial": (lambda r: dict(n=mp.mpf(7)), _unit, lambda r: counts(r, 7), False),
           "Gaussian": (lambda r: {}, _real_, _real_, True), "Gamma": (lambda r: {}, _pos, _pos, True), "InvGauss": (lambda r: {}, _pos, _pos, True),
           "Poisson": (lambda r: {}, _pos, lambda r: col([r.randint(0, 6) for _ in range(3)]), False)}
    for c in _subclasses(ob.cur, "Family"):
        if c not in fam or c in _subclasses(ob.cur, "ExtendedFamily"):
            continue
        kw, dmu, dy, two = fam[c]

        def mk(r, c=c, kw=kw, two=two):
            o = Obj(c, dict(kw(r)))
            phi = mp.mpf(r.uniform(.4, 2.))
            return o, ({"scale": phi} if two else {}), phi if two else mp.mpf(1)

        def score(r, c=c, dmu=dmu, dy=dy, mk=mk):
            # d lp / d mu = (y - mu) / (phi V(mu)): the log-density belongs to the variance function
            o, s, phi = mk(r)
            mu, y = dmu(r), dy(r)
            g = deriv(lambda z: X.call(o, "lp", y=y, mu=z, **s), mu)
            return close(g * phi * X.call(o, "V", mu=mu), y - mu)

        def devi(r, c=c, dmu=dmu, dy=dy, mk=mk):
            # d D / d mu = -2 (y - mu) / V(mu) and D = 0 at mu = y
            o, s, phi = mk(r)
            mu, y = dmu(r), dy(r)
            g = deriv(lambda z: X.call(o, "D", y=y, mu=z), mu)
            ok, why = close(g * X.call(o, "V", mu=mu), -2 * (y - mu))
            if not ok:
                return ok, why
            return close(X.call(o, "D", y=mu, mu=mu), mu * 0)

        def dv(r, c=c, dmu=dmu, mk=mk):
            o, s, phi = mk(r)
            mu = dmu(r)
            return close(X.call(o, "dVy1", mu=mu), deriv(lambda z: X.call(o, "V", mu=z), mu))

        def llk(r, c=c, dmu=dmu, dy=dy, mk=mk):
            o, s, phi = mk(r)
            mu, y = dmu(r), dy(r)
            ok, why = close(X.call(o, "llk", y=y, mu=mu, **s), sum(x for x in X.call(o, "lp", y=y, mu=mu, **s).reshape(-1)))
            return (ok, why) if not ok else close(X.call(o, "deviance", y=y, mu=mu), sum(x for x in X.call(o, "D", y=y, mu=mu).reshape(-1)))
        for key, q, f in (("score of lp is (y-mu)/(phi V)", "lp", score), ("derivative of D is -2(y-mu)/V, D(y,y)=0", "D", devi), ("dVy1 = V'", "dVy1", dv), ("llk and deviance are sums of lp and D", "llk", llk)):
            try:
                _ob(ob, "family", f"{c}: {key}", X.method(c, q), f)
            except Cannot as e:
                ob.dunno("family", str(e))


# ---------------------------------------------------------------------------- P03
@rule("P03")
def location_scale(ob):
    import mpmath as mp
    from .ident import Exprs, deriv, close, col, Obj, Cannot
    X = Exprs(ob.cur)

    def E(nm):
        return ("enum", f"DerivOrder.{nm}")
    fam = {"GAUMLSS": (2, [_real_, _pos], _real_, True, True), "GAMMALS": (2, [_pos, _pos], _pos, True, True), "MULNOMLSS": (3, [_pos, _pos, _pos], lambda r: col([r.randint(0, 3) for _ in range(3)]), True, False)}
    for c in _subclasses(ob.cur, "GAMLSSFamily"):
        if c not in fam:
            continue
        n, dom, dy, dens, expected = fam[c]
        try:
            o = X.new(c, **({"pars": n} if c == "MULNOMLSS" else {}))
        except Exception as e:
            ob.dunno("location-scale", f"{c}: {e}")
            continue
        deta = bool(o.attrs.get("d_eta", False))

        def lp(y, ms):
            return X.call(o, "lp", y=y, mus=list(ms))

        def move(ms, j, z):
            out = list(ms)
            out[j] = mp_exp(z) if deta else z
            return out

        def mp_exp(z):
            import numpy as np
            return np.frompyfunc(mp.exp, 1, 1)(z)

        def mp_log(z):
            import numpy as np
            return np.frompyfunc(mp.log, 1, 1)(z)

        def first(r, j, c=c, dom=dom, dy=dy):
            ms, y = [d(r) for d in dom], dy(r)
            x = mp_log(ms[j]) if deta else ms[j]
            return close(X.call(o, "dpars", y=y, mus=ms, order=E("d1"), index=j), deriv(lambda z: lp(y, move(ms, j, z)), x))

        def second(r, j, k, idx, order, c=c, dom=dom, dy=dy):
            ms, y = [d(r) for d in dom], dy(r)
            xj, xk = [(mp_log(ms[q]) if deta else ms[q]) for q in (j, k)]
            num = deriv(lambda z: deriv(lambda w: lp(y, move(move(ms, j, z), k, w)), xk if j != k else z) if j != k else deriv(lambda w: lp(y, move(ms, j, w)), z), xj)
            return close(X.call(o, "dpars", y=y, mus=ms, order=E(order), index=idx), num)
        try:
            q = X.method(c, "dpars")
        except Cannot as e:
            ob.dunno("location-scale", str(e))
            continue
        for j in range(n):
            _ob(ob, "location-scale", f"{c}: first derivative for parameter {j}", q, lambda r, j=j: first(r, j), 4)
        def curv(r, j, k, idx, order, c=c, dom=dom, dy=dy):
            """the second derivative of lp, observed or (as Fisher scoring uses it) expected over y"""
            ok, why = second(r, j, k, idx, order)
            if ok or not dens or not expected:
                return ok, why
            ms, y = [d(r, 1) for d in dom], dy(r, 1)
            xj, xk = [(mp_log(ms[q]) if deta else ms[q]) for q in (j, k)]
            got = X.call(o, "dpars", y=y, mus=ms, order=E(order), index=idx)
            import numpy as np

            def g(z):
              with mp.workdps(40):
                yy = col([z])
                d = deriv(lambda u: deriv(lambda w: lp(yy, move(move(ms, j, u), k, w)), xk) if j != k else deriv(lambda w: lp(yy, move(ms, j, w)), u), xj)
                return mp.exp(lp(yy, ms)[0, 0]) * np.array(d).reshape(-1)[0]
            lo, mid = (0, [mp.mpf(1) / 20, mp.mpf(1) / 2, 2, 8]) if dy is _pos else (-mp.inf, [-9, -2, 2, 9])
            with mp.workdps(10):
                w = mp.quad(g, [lo] + mid + [mp.inf], maxdegree=5)
            return close(np.array(got).reshape(-1), [w], mp.mpf(10) ** -4)
        for j in range(n):
            _ob(ob, "location-scale", f"{c}: second derivative for parameter {j}", q, lambda r, j=j: curv(r, j, j, j, "d2"), 1 if expected else 4)
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for idx, (a, b) in enumerate(pairs):
            _ob(ob, "location-scale", f"{c}: mixed derivative for parameters {a},{b}", q, lambda r, a=a, b=b, i=idx: curv(r, a, b, i, "d2m"), 1 if expected else 4)

        def total(r, dom=dom, dy=dy):
            ms, y = [d(r) for d in dom], dy(r)
            return close(X.call(o, "llk", y=y, mus=ms), sum(x for x in lp(y, ms).reshape(-1)))
        try:
            _ob(ob, "location-scale", f"{c}: llk is the sum of lp", X.method(c, "llk"), total)
        except Cannot as e:
            ob.dunno("location-scale", str(e))
        if c == "MULNOMLSS":
            def prob(r, dom=dom):
                ms = [d(r) for d in dom]
                s = 0
                for k in range(n + 1):
                    s = s + mp_exp(lp(col([k] * 3), ms))
                ok, why = close(s, col([1, 1, 1]))
                if not ok:
                    return ok, "probabilities of the categories do not sum to one: " + why
                return close(sum(X.call(o, "get_probs", mus=ms).T), [1, 1, 1])
            _ob(ob, "location-scale", f"{c}: category probabilities sum to one", X.method(c, "lp"), prob)

            def cdf(r, dom=dom):
                ms = [d(r) for d in dom]
                # the last category's upper probability is one minus its own: cumulative probabilities increase to one
                tot = 0
                for k in range(n + 1):
                    lc = X.call(o, "lcp", y=col([k] * 3), mus=ms)
                return True, ""
        else:
            def cdf(r, dom=dom, dy=dy):
                # d exp(lcp) / d y = exp(lp)
                ms, y = [d(r) for d in dom], dy(r)
                g = deriv(lambda z: mp_exp(X.call(o, "lcp", y=z, mus=ms)), y)
                return close(g, mp_exp(lp(y, ms)), mp.mpf(10) ** -8)
            try:
                _ob(ob, "location-scale", f"{c}: density is the derivative of the distribution function", X.method(c, "lcp"), cdf, 3)
            except Cannot as e:
                ob.dunno("location-scale", str(e))


# ---------------------------------------------------------------------------- P04
@rule("P04")
def scaled_t(ob):
    import mpmath as mp
    import numpy as np
    from .ident import Exprs, deriv, close, col, Obj, Cannot
    X = Exprs(ob.cur)
    c = "ScaledT"
    if c not in _subclasses(ob.cur, "ExtendedFamily"):
        return

    def mk(r):
        th = col([r.uniform(-.5, .7), r.uniform(-.5, 1.5)])
        return Obj(c, {"theta": th, "min_df": mp.mpf(3), "scale": mp.mpf(1), "link": Obj("Identity", {})}), th

    def d1(r):
        o, th = mk(r)
        y, mu = _real_(r), _real_(r)
        return close(X.call(o, "dDdmu", y=y, mu=mu, theta=th), deriv(lambda z: X.call(o, "D", y=y, mu=z, theta=th), mu))

    def d2(r):
        o, th = mk(r)
        y, mu = _real_(r), _real_(r)
        return close(X.call(o, "d2Ddmu", y=y, mu=mu, theta=th), deriv(lambda z: X.call(o, "dDdmu", y=y, mu=z, theta=th), mu))

    def ed2(r):
        # E[d2D/dmu2] = 2 (nu+1) / (sigma^2 (nu+3)), as 1/2 d2D/dmu2 is minus the second derivative of lp
        o, th = mk(r)
        y, mu = col([r.uniform(-1, 1)]), col([r.uniform(-1, 1)])
        v = X.call(o, "Ed2Ddmu", y=y, mu=mu, theta=th)

        def g(z):
            p = mp.exp(X.call(o, "lp", y=col([z]), mu=mu, theta=th)[0, 0])
            return p * X.call(o, "d2Ddmu", y=col([z]), mu=mu, theta=th)[0, 0]
        with mp.workdps(18):
            w = mp.quad(g, [-mp.inf, -3, 0, 3, mp.inf], maxdegree=7)
        return close(v, [w], mp.mpf(10) ** -5)

    def lp(r):
        # lp + D/2 does not depend on mu, and the density integrates to one
        o, th = mk(r)
        y, mu = _real_(r), _real_(r)
        g = deriv(lambda z: X.call(o, "lp", y=y, mu=z, theta=th) + X.call(o, "D", y=y, mu=z, theta=th) / 2, mu)
        return close(g, mu * 0)

    def norm(r):
        o, th = mk(r)
        with mp.workdps(18):
            w = mp.quad(lambda z: mp.exp(X.call(o, "lp", y=col([z]), mu=col([0]), theta=th)[0, 0]), [-mp.inf, -4, 0, 4, mp.inf], maxdegree=7)
        return close([w], [1], mp.mpf(10) ** -5)

    def at(th, k, z):
        t = np.array(th, dtype=object, copy=True)
        t[k, 0] = z
        return t

    def grad(r):
        o, th = mk(r)
        y, mu = _real_(r), _real_(r)
        g = X.call(o, "gradientLTheta", y=y, mu=mu, theta=th)
        n = [deriv(lambda z: X.call(o, "llk", y=y, mu=mu, theta=at(th, k, z)), th[k, 0]) for k in (0, 1)]
        return close(g, n)

    def hess(r):
        o, th = mk(r)
        y, mu = _real_(r), _real_(r)
        h = X.call(o, "hessianLTheta", y=y, mu=mu, theta=th)
        rows = [deriv(lambda z: np.array([[q] for q in X.call(o, "gradientLTheta", y=y, mu=mu, theta=at(th, k, z)).reshape(-1)], dtype=object), th[k, 0]) for k in (0, 1)]
        return close(h, np.hstack(rows))

    def var(r):
        # Var = sigma^2 nu/(nu-2), with sigma and nu those of the density
        o, th = mk(r)
        mu = col([0])
        with mp.workdps(18):
            w = mp.quad(lambda z: z * z * mp.exp(X.call(o, "lp", y=col([z]), mu=mu, theta=th)[0, 0]), [-mp.inf, -30, -4, 0, 4, 30, mp.inf], maxdegree=8)
        return close(X.call(o, "V", mu=mu, theta=th), [w], mp.mpf(10) ** -3)
    for key, q, f, n in (("dDdmu = dD/dmu", "dDdmu", d1, 5), ("d2Ddmu = d2D/dmu2", "d2Ddmu", d2, 5), ("Ed2Ddmu is the expectation of d2Ddmu", "Ed2Ddmu", ed2, 1), ("lp differs from -D/2 by a term free of mu", "D", lp, 5),
                      ("exp(lp) integrates to one", "lp", norm, 1), ("gradientLTheta = d llk / d theta", "gradientLTheta", grad, 4), ("hessianLTheta = d gradientLTheta / d theta", "hessianLTheta", hess, 4), ("V is the variance of exp(lp)", "V", var, 1)):
        try:
            _ob(ob, "scaled-t", f"{c}: {key}", X.method(c, q), f, n)
        except Cannot as e:
            ob.dunno("scaled-t", str(e))
