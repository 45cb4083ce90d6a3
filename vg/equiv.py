"""Translation validation of one function: value graph of the working tree against the value graph of the reference model."""
from __future__ import annotations
import ast
import time
from . import core, fp, simp
from .core import mk, const, FALSE
from .front import Builder, Policy, Budget, Unsupported
from .repo import Repo, ann_sort, attr_sorts, result_sorts

# library names with many interchangeable spellings: a difference made only of these is not decided
FLEX = {"np.hstack", "np.vstack", "np.column_stack", "np.concatenate", "np.append", "np.outer", "np.einsum", "np.full", "np.empty", "np.full_like",
        "np.empty_like", "np.arange", "range", "list", "tuple", "set", "sorted", "np.sort", "np.unique", "np.flatnonzero", "np.nonzero", "np.argwhere",
        "np.where", "np.count_nonzero", "np.isin", "np.in1d", "np.linalg.norm", "np.ix_", "np.take", "np.delete", "np.prod", "np.stack",
        "enumerate", "zip", "map", "filter", "dict", "int", "str", "np.shape", "np.size", "np.ndim", "type", "getattr", "hasattr",
        "next", "iter", "divmod", "frozenset", "np.r_", "np.c_", "np.tile", "np.repeat", "np.block", "scp.sparse.hstack", "scp.sparse.vstack",
        "np.linspace", "np.dstack", "np.expand_dims", "np.newaxis", "set_lit", "dict_merge", "rec_clo", "slice", "np.logical_xor", "print",
        "np.diag", "scp.sparse.diags", "scp.sparse.diags_array", "np.copyto", "np.cumsum", "len", "np.asarray", "np.array", "np.zeros", "np.ones", "np.zeros_like", "np.ones_like", "any", "all", "max", "min"}
FLEXMOD = ("itertools.", "functools.", "operator.", "collections.", "contextlib.", "typing.", "string.", "re.")
FLEXMETH = {"items", "keys", "values", "get", "setdefault", "update", "copy", "join", "format", "split", "strip", "startswith", "endswith", "index",
            "count", "pop", "insert", "remove", "extend", "sort", "reverse", "add", "union", "difference", "intersection", "clear", "fill", "tolil", "tocsr", "todia"}


import os
DBG = bool(os.environ.get('VGDBG'))


class Side:
    def __init__(self, repo: Repo):
        self.repo = repo
        self.cache = {}


def ast_key(f):
    """text-independent key of a function: its syntax tree without positions and docstrings"""
    body = f.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    return "|".join([ast.dump(f.args)] + [ast.dump(d) for d in f.decorator_list] + [ast.dump(s) for s in body])


class Result:
    def __init__(self, qual, verdict, why="", out=None, lines=None, stats=None):
        self.qual, self.verdict, self.why, self.out, self.lines = qual, verdict, why, out, lines or []
        self.stats = stats or {}

    def __repr__(self):
        return f"{self.verdict} {self.qual} {self.out or ''} {self.why} {self.lines}"


def missing(name):
    if name == "ret":
        return core.NONEN
    if name.startswith("raise:"):
        return FALSE
    if name.startswith("mut:"):
        return None
    if name.startswith("self."):
        return mk("sym", (), (name, None))
    if name.startswith("heap:"):
        return mk("heap0", (), name[5:])
    return core.NONEN


class Validator:
    def __init__(self, cur: Repo, ref: Repo, seed=1, tier="quick", budget_s=25):
        self.budget_s = budget_s
        self.cur, self.ref = cur, ref
        self.seed = seed
        self.tier = tier
        self.common = {q for q in cur.funcs if q in ref.funcs}
        self.reads = {}
        for q in self.common:
            self.reads[q] = cur.eff.fn[q].reads | ref.eff.fn[q].reads
        self.same = {q for q in self.common if ast_key(cur.funcs[q]) == ast_key(ref.funcs[q])}
        for q in self.common - self.same:
            # annotations carry no behaviour: the reference's are used for both sides
            f, g = cur.funcs[q], ref.funcs[q]
            an = {p.arg: p.annotation for p in g.args.posonlyargs + g.args.args + g.args.kwonlyargs}
            for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
                if p.arg in an:
                    p.annotation = an[p.arg]
            f.returns = g.returns
        a, b = attr_sorts(cur), attr_sorts(ref)
        core.ASORTS.clear()
        core.ASORTS.update({k: v for k, v in a.items() if b.get(k) == v})
        simp.RSORTS.clear()
        simp.RSORTS.update(result_sorts(ref))
        self.bmemo = {}
        self.rmemo = {}
        self.reflib = None
        self.stats = {"graphs": 0, "nodes": 0, "interpretations": 0}

    # -- building
    def build(self, side, qual, inline=frozenset(), unroll=0, budget=40000, presets=None, argvals=None):
        key = (side, qual, inline, unroll)
        if key in self.bmemo:
            return self.bmemo[key]
        repo = self.cur if side == "cur" else self.ref
        pol = Policy(modular=self.common, inline=set(inline), unroll=unroll, budget=budget)
        b = Builder(repo, pol, self.reads)
        core.deadline[0] = time.time() + 60
        try:
            o = b.analyze(qual)
            o = self.defaults(repo, qual, o)
            r = (o, b)
            self.stats["graphs"] += 1
        except (Budget, Unsupported, RecursionError, core.Late) as e:
            r = (None, repr(e))
        except Exception as e:      # construct outside the supported subset: never an alarm
            r = (None, "unsupported: " + repr(e)[:120])
        core.deadline[0] = None
        self.bmemo[key] = r
        return r

    def defaults(self, repo, qual, o):
        f = repo.funcs[qual]
        a = f.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            try:
                b = Builder(repo, Policy(modular=self.common), self.reads)
                from .front import State
                st = State()
                b.mod, b.cls, b.fid = repo.owner[qual][0], None, 0
                st.frames[0] = {}
                o["default:" + p.arg] = b.V(b.const_expr(d, b.mod, st), st)
            except Exception:
                pass
        names = [p.arg for p in pos]
        for k, nm in enumerate(names):
            o.setdefault("param:" + nm, const(k))
        return o

    def same_lengths(self, o1, b1, o2, b2):
        """zip on one side only: the sequences it pairs are taken to be equally long on both sides"""
        z1 = {frozenset((x.id, y.id)): (x, y) for x, y in getattr(b1, "zipped", ()) if x is not y and not x.free and not y.free}
        z2 = {frozenset((x.id, y.id)): (x, y) for x, y in getattr(b2, "zipped", ()) if x is not y and not x.free and not y.free}
        new = [v for k, v in list(z1.items()) + list(z2.items()) if (k in z1) != (k in z2)]
        if not new:
            return o1, o2
        rep = {}

        def find(x):
            while x.id in rep:
                x = rep[x.id]
            return x
        for x, y in new:
            x, y = find(x), find(y)
            if x is y or (core.is_const(x) and core.is_const(y)):
                continue
            if core.is_const(x) or (not core.is_const(y) and x.id < y.id):
                x, y = y, x
            rep[x.id] = y
        m = {k: find(v) for k, v in rep.items()}
        memo = dict(m)
        return {k: rewrite(v, memo) for k, v in o1.items()}, {k: rewrite(v, memo) for k, v in o2.items()}

    # -- comparing graphs
    scal = frozenset()

    def diff(self, o1, o2, seeds, qual, un=0):
        """names of outputs with different numbers -> evidence trial"""
        self.un, seen = un, 0
        keys = sorted(set(o1) | set(o2))
        A, B = {}, {}
        only = []
        for k in keys:
            if k.startswith("default:") or k.startswith("param:"):
                if k not in o1 or k not in o2:
                    only.append(k)
                    continue
            a, b = o1.get(k), o2.get(k)
            if a is None or b is None:
                m = missing(k)
                if k.startswith("mut:") and a is None and self.ref.eff.fn[qual].mut.get(k[4:], "").startswith("augmented"):
                    continue        # an argument that used to be updated in place by the way is now left alone
                if k.startswith("mut:"):
                    f = self.cur.funcs.get(qual) or self.ref.funcs[qual]
                    ann = next((p.annotation for p in f.args.args + f.args.kwonlyargs if p.arg == k[4:]), None)
                    m = mk("sym", (), (k[4:], ann_sort(ann)))
                a = m if a is None else a
                b = m if b is None else b
            A[k], B[k] = a, b
        voc = fp.vocab(list(A.values()) + list(B.values()))
        voc["notie"] = extrema(A.values()) != extrema(B.values())
        voc["scal"] = self.scal
        bad = {}
        covd, stale, passed, rescued = set(), 0, 0, 0
        dl = time.time() + self.budget_s
        for t, (sd, wild) in enumerate(seeds):
            if time.time() > dl:
                break
            I1 = fp.Interp(sd, wild, voc, self.mro, deadline=dl + 30)
            I2 = fp.Interp(sd, wild, voc, self.mro, deadline=dl + 30)
            rk = [k for k in A if k.startswith("raise:")]
            r1 = {k for k in rk if I1.truth(I1.val(A[k], {}))}
            r2 = {k for k in rk if I2.truth(I2.val(B[k], {}))}
            rz = r1 or r2
            if bool(r1) != bool(r2) or (r1 and not (r1 & r2)):
                for k in r1 ^ r2:
                    bad.setdefault(k, []).append((sd, wild))
            ev = (sd, wild)
            if rz and r1 and r2 and passed < 14 and rescued < 40:
                # refused on both sides: nearest choices under which the request is accepted
                rescued += 1
                salts = self.accept(A, rk, sd, voc, min(dl, time.time() + 4))
                if salts is not None:
                    I1 = fp.Interp(sd, True, voc, self.mro, salts=salts, deadline=dl + 30)
                    I2 = fp.Interp(sd, True, voc, self.mro, salts=salts, deadline=dl + 30)
                    ev = (sd, True, salts, ())
                    r2 = {k for k in rk if I2.truth(I2.val(B[k], {}))}
                    rz = r2
                    for k in r2:
                        bad.setdefault(k, []).append(ev)
            if not rz:
                passed += 1
                for k in A:
                    if k.startswith("raise:") or A[k] is B[k]:
                        continue
                    v1, v2 = I1.val(A[k], {}), I2.val(B[k], {})
                    if un and I2.undef:
                        break       # the unrolled reference loop did not finish: nothing to compare with
                    seen += 1
                    if not same(v1, v2):
                        bad.setdefault(k, []).append(ev)
            self.stats["interpretations"] += 1
            self.stats["nodes"] += I1.nodes
            c = I1.cov | {(-a, b) for a, b in I2.cov}
            if c <= covd:
                stale += 1
            else:
                stale = 0
                covd |= c
            if bad and t >= (12 if all(A[k] is B[k] or k in bad for k in A) else 60) and min(len(v) for v in bad.values()) >= 2:
                break
            if passed >= 160 or t >= 40 and stale >= 40:
                break
        if DBG:
            print("un", un, "trials", t + 1, "passed", passed, "rescue tries", rescued, "seen", seen, {k: len(v) for k, v in bad.items()})
        bad = {k: v for k, v in bad.items() if len(v) >= 2}
        if un and not bad and not seen and any(A[k] is not B[k] for k in A if not k.startswith("raise:")):
            bad = {k: [seeds[0]] for k in A if A[k] is not B[k]}
        if not bad and len(seeds) > 10:
            bad = self.steered(A, B, voc)
        return bad, A, B, voc

    def accept(self, A, rk, sd, voc, dl):
        salts = {}
        try:
            for _ in range(8):
                I = fp.Interp(sd, True, voc, self.mro, salts=salts, deadline=dl)
                r = next((k for k in rk if I.truth(I.val(A[k], {}))), None)
                if r is None:
                    return salts
                salts = self.flip(A[r], {}, False, sd, voc, salts, (), dl)
                if salts is None:
                    return None
        except fp.Late:
            pass
        return None

    # -- interpretations aimed at the places where the two graphs are written differently
    def steered(self, A, B, voc):
        dl = time.time() + self.budget_s
        keys = [k for k in A if A[k] is not B[k]]
        sh = {}
        ha = {k: canon(A[k], sh) for k in keys}
        keys = [k for k in keys if ha[k] != canon(B[k], sh)]
        if not keys:
            return {}
        SA, SB = {n.id: n for n in core.walk([A[k] for k in keys])}, {n.id: n for n in core.walk([B[k] for k in keys])}
        CA, CB = {sh[i] for i in SA}, {sh[i] for i in SB}
        bad = {}
        rk = [k for k in A if k.startswith("raise:")]
        jobs = []
        for side, S, C, R in (("A", SA, CB, A), ("B", SB, CA, B)):
            new = [n for n in S.values() if sh[n.id] not in C]
            ids = {n.id for n in new}
            tg = [n for n in new if not any(a.id in ids for a in n.args)]
            par = {}
            for n in S.values():
                for j, a in enumerate(n.args):
                    par.setdefault(a.id, []).append((n, j))
            roots = {R[k].id: k for k in keys}
            tg.sort(key=lambda n: sh[n.id])
            for n in tg[:14]:
                jobs.append((side, n, par, roots))
        if not jobs:
            return {}
        import random
        rnd = random.Random(self.seed)
        for rep in range(10 if self.tier == "quick" else 30):
            for side, n, par, roots in jobs:
                if time.time() > dl:
                    return {k: v for k, v in bad.items() if len(v) >= 2 or k.startswith("raise:")}
                sd = self.seed * 7919 + 31 * rep + 5000003
                path = climb(n, par, roots, rnd)
                if path is None:
                    continue
                k, want, wn = path
                if DBG:
                    print("target", side, core.show(n, 2)[:150], "line", n.line, "out", k, "wants", len(want))
                if n.op == "ite":
                    want.setdefault(n.args[0].id, rep % 2 == 0)
                elif n.op in ("and", "or", "not"):
                    vs = decisive(n)
                    for q, t in vs[rep % len(vs)].items():
                        want.setdefault(q, t)
                elif n.op in ("cmp", "isinst"):
                    want.setdefault(n.id, rep % 2 == 0)
                hot = hotnums(n, par)
                for q in wn:
                    if q.op == "cmp":
                        hot = sorted(set(hot) | {float(core.cval(a)) for a in q.args if core.is_num(a)})
                for j in range(2):
                    s = self.steer(side, A, B, k, rk, want, sd + 1000 * j, voc, hot, dl, n, par)
                    self.stats["steered"] = self.stats.get("steered", 0) + 1
                    if DBG:
                        print("   ->", None if s is None else (s[0], s[1], len(s[2])))
                    if s is None:
                        continue
                    if s[0]:
                        bad.setdefault(s[1], []).append((sd + 1000 * j, True, s[2], hot))
                if any(len(v) >= 2 for v in bad.values()):
                    return {k: v for k, v in bad.items() if len(v) >= 2}
        return {k: v for k, v in bad.items() if len(v) >= 2 or k.startswith("raise:")}

    def steer(self, side, A, B, k, rk, want, sd, voc, hot, dl, target=None, par=None):
        """search an interpretation in which the wanted conditions hold; then compare output k"""
        X, Y = (A, B) if side == "A" else (B, A)
        salts, lock = {}, set()
        for step in range(24):
            if time.time() > dl:
                return None
            I = fp.Interp(sd, True, voc, self.mro, salts=salts, hot=hot, want=want, deadline=dl)
            try:
                for r in rk:
                    if r != k and I.truth(I.val(X[r], {})):
                        raise fp.Missed(("no", X[r]), {})
                v = I.val(X[k], {})
                break
            except fp.Missed as m:
                c, env, goal = m.c, m.env, None
                if isinstance(c, tuple):
                    c, goal = c[1], False
                else:
                    goal = want[c.id]
                ns = self.flip(c, env, goal, sd, voc, salts, hot, dl, 0, lock)
                if ns is None and lock:
                    ns = self.flip(c, env, goal, sd + step, voc, salts, hot, dl)
                    lock = set()
                if ns is None:
                    if DBG:
                        print("   stuck", goal, core.show(c, 3)[:200])
                    return None
                lock |= {q for q in ns if ns[q] != salts.get(q, 0)}
                salts = ns
            except fp.Late:
                return None
        else:
            return None
        def compare(v, I, salts):
            J = fp.Interp(sd, True, voc, self.mro, salts=salts, hot=hot, deadline=dl + 20)
            for r in rk:
                if r != k and bool(J.truth(J.val(Y[r], {}))):
                    return r
            w = J.val(Y[k], {})
            if self.un and (J if side == "A" else I).undef:
                return None
            if k.startswith("raise:"):
                return k if I.truth(v) != J.truth(w) else None
            return None if same(v, w) else k
        try:
            r = compare(v, I, salts)
            if r is not None or target is None:
                return (r is not None, r or k, salts)
            # same path, other choices for what the target and its immediate context are made of
            logs = []
            for x in [target] + [p for p, _ in (par or {}).get(target.id, [])][:3]:
                if x.free:
                    continue
                log = []
                fp.Interp(sd, True, voc, self.mro, salts=salts, hot=hot, log=log, deadline=dl).val(x, {})
                logs.append(log[::-1])
            tried, seen = 0, set()
            for key, cnt in [q for log in logs for q in log]:
                if key in seen:
                    continue
                seen.add(key)
                for o in range(1, min(cnt, 18)):
                    tried += 1
                    if tried > 60 or time.time() > dl:
                        return (False, k, salts)
                    ns = dict(salts)
                    ns[key] = (salts.get(key, 0) + o) % cnt
                    I = fp.Interp(sd, True, voc, self.mro, salts=ns, hot=hot, want=want, deadline=dl)
                    try:
                        if any(r != k and I.truth(I.val(X[r], {})) for r in rk):
                            continue
                        v = I.val(X[k], {})
                    except fp.Missed:
                        continue
                    r = compare(v, I, ns)
                    if r is not None:
                        return (True, r, ns)
            return (False, k, salts)
        except fp.Late:
            return None

    def flip(self, c, env, goal, sd, voc, salts, hot, dl, depth=0, lock=()):
        """choices under which condition c comes out as wanted, starting from the given ones"""
        def ev(x, ns, log=None):
            I = fp.Interp(sd, True, voc, self.mro, salts=ns, hot=hot, log=log, deadline=dl)
            return I.truth(I.val(x, env))
        try:
            log = []
            if ev(c, salts, log) == goal:
                return salts
            if depth < 12:
                if c.op == "not":
                    return self.flip(c.args[0], env, not goal, sd, voc, salts, hot, dl, depth + 1, lock)
                if c.op in ("and", "or"):
                    if (c.op == "and") == goal:
                        ns = salts
                        for a in c.args:
                            ns = self.flip(a, env, goal, sd, voc, ns, hot, dl, depth + 1, lock)
                            if ns is None:
                                return None
                        if ev(c, ns) == goal:
                            return ns
                    else:
                        k = sd % len(c.args)
                        for a in c.args[k:] + c.args[:k]:
                            ns = self.flip(a, env, goal, sd, voc, salts, hot, dl, depth + 1, lock)
                            if ns is not None and ev(c, ns) == goal:
                                return ns
            seen = set()
            cands = []
            for key, cnt in reversed(log):
                if key not in seen and key not in lock:
                    seen.add(key)
                    cands.append((key, cnt))
            for key, cnt in cands[:30]:
                for o in range(1, min(cnt, 40)):
                    ns = dict(salts)
                    ns[key] = (salts.get(key, 0) + o) % cnt
                    if ev(c, ns) == goal:
                        return ns
            # two choices at once (a test behind a None test)
            for key, cnt in cands[:4]:
                for o in range(1, min(cnt, 8)):
                    ns = dict(salts)
                    ns[key] = (salts.get(key, 0) + o) % cnt
                    log = []
                    ev(c, ns, log)
                    done = set()
                    for k2, c2 in list(reversed(log))[:6]:
                        if k2 == key or k2 in done or k2 in lock:
                            continue
                        done.add(k2)
                        for o2 in range(1, min(c2, 40)):
                            n2 = dict(ns)
                            n2[k2] = (ns.get(k2, 0) + o2) % c2
                            if ev(c, n2) == goal:
                                return n2
        except fp.Late:
            return None
        return None

    def mro(self, c):
        k = self.ref.find_class(c) or self.cur.find_class(c)
        if k is None:
            return (c,)
        return tuple(x.name for x in self.ref.mro(k)) if self.ref.find_class(c) else tuple(x.name for x in self.cur.mro(k))

    def seeds(self, n):
        base = self.seed * 1000003
        return [(base + i, i % 5 != 0) for i in range(n)]

    def undecided(self, a, b):
        """names used on one side only that have no fixed meaning here"""
        na, nb = names_of([a]), names_of([b])
        d = na ^ nb
        fl = []
        for kind, nm in d:
            if kind == "call":
                if nm in FLEX or nm.startswith(FLEXMOD):
                    fl.append(nm)
                elif (kind, nm) in na - nb and nm not in self.known_lib():
                    fl.append(nm)
            elif kind == "mcall":
                if nm in FLEXMETH:
                    fl.append("." + nm)
                elif (kind, nm) in na - nb and nm not in self.known_meth():
                    fl.append("." + nm)
            elif kind == "op" and nm == "map":
                if (kind, nm) in na or na - nb:
                    fl.append("comprehension")
            elif kind == "op":
                fl.append(nm)
        if fl and not any(k in ("call", "mcall") and (nm in fl or "." + nm in fl) for k, nm in na - nb) and substitution_only(a, b):
            return []
        if fl and not loops_differ(a, b):
            # functions that nothing else on the other side can stand for
            one, two = {("." if k == "mcall" else "") + nm for k, nm in na - nb}, {("." if k == "mcall" else "") + nm for k, nm in nb - na}
            for names, stand in FAMILY:
                if (names & one and not stand & two) or (names & two and not stand & one):
                    fl = [x for x in fl if x not in names]
        if fl and wrapped(a, b, {nm for k, nm in na - nb if k == "call"}, fl):
            return []
        return fl

    def rewritten(self, qual):
        """hardly any statement of the reference is left: equality can be shown, a difference is not held against the new text"""
        f, g = self.cur.funcs.get(qual), self.ref.funcs.get(qual)
        if f is None or g is None:
            return False
        a, b = heads(f), heads(g)
        left = sum(min(n, a.get(t, 0)) for t, n in b.items())
        tot = sum(b.values())
        return tot - left >= 12 and left < 0.35 * tot

    def known_lib(self):
        if self.reflib is None:
            s, m = set(), set()
            for mod in self.ref.mods.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Call):
                        t = ast.unparse(n.func)
                        s.add(t)
                        if isinstance(n.func, ast.Attribute):
                            m.add(n.func.attr)
            extra = {"np.max", "np.min", "np.argmax", "np.argmin", "np.mean", "np.median", "np.std", "np.var", "np.nanmax", "np.nanmin", "np.nanmean", "np.nansum",
                     "np.cumsum", "np.cumprod", "np.round", "np.floor", "np.ceil", "np.tan", "np.sin", "np.cos", "np.linalg.det", "np.linalg.solve", "np.linalg.pinv",
                     "np.linalg.slogdet", "np.random.default_rng", "np.random.normal", "np.random.rand", "np.random.randn", "np.random.seed", "time.time",
                     "copy.copy", "scp.linalg.solve", "np.triu", "np.tril", "np.flip", "np.argsort", "np.diff", "abs", "max", "min", "round", "np.percentile", "np.quantile"}
            self.reflib = (s | extra, m)
        return self.reflib[0]

    def known_meth(self):
        self.known_lib()
        return self.reflib[1]

    # -- decision for one function
    def check(self, qual):
        if qual in self.rmemo:
            return self.rmemo[qual]
        r = self._check(qual)
        self.rmemo[qual] = r
        return r

    def check_pair(self, qc, qr):
        """a function of the working tree that took the place of another one of the reference (moved, overridden or inherited)"""
        try:
            o1, b1 = self.build("cur", qc)
            o2, b2 = self.build("ref", qr)
            if o1 is None or o2 is None:
                return Result(qc, "UNKNOWN", f"not analysable: {b1 if o1 is None else b2}")
            o1, o2 = self.same_lengths(o1, b1, o2, b2)
            bad, A, B, voc = self.diff(o1, o2, self.seeds(160), qc)
            if not bad:
                return Result(qc, "EQUAL", f"value numbers agree with {qr}")
            return self.verdict(qc, bad, A, B, voc, o1, [("pair", qr)], False)
        except fp.Late:
            return Result(qc, "UNKNOWN", "time limit")

    def check_inlined(self, qual, inline):
        try:
            o1, b1 = self.build("cur", qual, frozenset(q for q in inline if q in self.cur.funcs))
            o2, b2 = self.build("ref", qual, frozenset(q for q in inline if q in self.ref.funcs))
            if o1 is None or o2 is None:
                return Result(qual, "UNKNOWN", f"not analysable: {b1 if o1 is None else b2}")
            bad, A, B, voc = self.diff(o1, o2, self.seeds(160), qual)
            return Result(qual, "DIFF" if bad else "EQUAL", "inlined")
        except fp.Late:
            return Result(qual, "UNKNOWN", "time limit")

    def _check(self, qual):
        if qual not in self.cur.funcs:
            return Result(qual, "GONE")
        if qual not in self.ref.funcs:
            return Result(qual, "NEW")
        if qual.startswith("cpp_"):
            # calls something of its file that is outside the translated subset
            f = os.path.basename(self.ref.owner[qual][0].path)
            no = set(self.cur.cpp_failed.get(f, ())) | set(self.ref.cpp_failed.get(f, ()))
            if no and any(isinstance(x, ast.Name) and x.id in no for R in (self.cur, self.ref) for x in ast.walk(R.funcs[qual])):
                return Result(qual, "UNKNOWN", f"calls {sorted(no)}, which could not be translated")
        try:
            return self._check2(qual)
        except fp.Late:
            return Result(qual, "UNKNOWN", "time limit")

    def _check2(self, qual, skip=frozenset()):
        r = self._check3(qual, skip)
        if r.verdict == "UNKNOWN" and getattr(r, "und", None) and not skip:
            # the other results of the function
            q = self._check3(qual, frozenset(r.und))
            if q.verdict == "DIFF":
                return q
        return r

    def _check3(self, qual, skip):
        o1, b1 = self.build("cur", qual)
        o2, b2 = self.build("ref", qual)
        if o1 is None or o2 is None:
            return Result(qual, "EQUAL" if qual in self.same else "UNKNOWN", f"not analysable: {b1 if o1 is None else b2}")
        ident = qual in self.same
        o1, o2 = self.same_lengths(o1, b1, o2, b2)
        if skip:
            o1, o2 = ({k: v for k, v in o.items() if k not in skip} for o in (o1, o2))
            if not any(o1.get(k) is not o2.get(k) for k in set(o1) | set(o2) if not k.startswith("raise:")):
                return Result(qual, "EQUAL", "nothing else differs")
        bad, A, B, voc = self.diff(o1, o2, self.seeds(3 if ident else 160), qual)
        if not bad:
            return Result(qual, "EQUAL", "identical syntax" if ident else "value numbers agree")
        if ident:
            # same syntax, different meaning of a name it uses (import, global, class layout)
            bad, A, B, voc = self.diff(o1, o2, self.seeds(160), qual)
            if not bad:
                return Result(qual, "EQUAL")
        tried = []
        # different split of work between functions: inline what is called differently
        c1, c2 = rcalls(o1), rcalls(o2)
        inl = frozenset(q for q in set(c1) | set(c2) if c1.get(q, 0) != c2.get(q, 0) and q in self.common)
        variants = []
        if inl:
            variants.append((inl, 0))
        small = frozenset(q for q in set(c1) | set(c2) if q in self.common and q not in self.same)
        if small and small != inl:
            variants.append((small | inl, 0))
        plain = headers(self.cur.funcs[qual]) != headers(self.ref.funcs[qual])
        if any(loops_differ(A[k], B[k]) or plain and has_loop(A[k]) for k in bad):
            variants.append((frozenset(), 2))
            variants.append((frozenset(), 3))
            if inl or small:
                variants.append((inl | small, 2))
                variants.append((inl | small, 3))
        confirmed, two = False, {}
        for iv, un in variants:
            p1, e1 = self.build("cur", qual, iv, un)
            p2, e2 = self.build("ref", qual, iv, un)
            if p1 is None or p2 is None:
                tried.append((len(iv), un, "n/a"))
                if not (un == 3 and two.get(iv)):
                    continue
                b3 = {}
            else:
                p1, p2 = self.same_lengths(p1, e1, p2, e2)
                if skip:
                    p1, p2 = ({k: v for k, v in o.items() if k not in skip} for o in (p1, p2))
                b3, A3, B3, _ = self.diff(p1, p2, self.seeds(480), qual, un)
                tried.append((len(iv), un, "equal" if not b3 else "differs"))
            if un == 2:
                two[iv] = not b3
                if not b3:
                    continue        # three rounds have to agree as well
            if not b3 and (un == 0 or two.get(iv, True)):
                return Result(qual, "EQUAL", f"value numbers agree after inlining {sorted(iv)} / unrolling {un}")
            if un:
                confirmed = True
            if b3:
                bad = {k: v for k, v in bad.items() if k in b3} or bad
        return self.verdict(qual, bad, A, B, voc, o1, tried, confirmed)

    def verdict(self, qual, bad, A, B, voc, o1, tried, confirmed):
        # is the difference expressed in vocabulary with a fixed meaning?
        for k in sorted(bad, key=lambda k: (k.startswith("default"), k.startswith("raise"), k)):
            fl = self.undecided(A[k], B[k]) if k in o1 or k.startswith("raise:") else []
            if fl and k.startswith("mut:") and B[k].op == "sym" and not any(n.op in ("mutated", "opaque_clo", "cyc", "star") for n in core.walk([A[k]])):
                fl = []         # an object of the caller that was left alone is now changed, whatever it is changed to
            if fl and set(fl) <= TRANSP:
                # do the terms still differ when the conversions are taken for what they wrap?
                m = {}
                if self.diff({k: peel(A[k], m)}, {k: peel(B[k], m)}, self.seeds(60), qual)[0]:
                    fl = []
            if fl:
                und = fl
                continue
            if loops_differ(A[k], B[k]) and not confirmed:
                und = ["loop structure"]
                continue
            if self.rewritten(qual):
                und = ["function rewritten as a whole"]
                break
            f = factors(A[k], B[k])
            if f:
                # entries that are used as factors only, taken for the numbers they may be
                self.scal = f
                try:
                    d = self.diff({k: A[k]}, {k: B[k]}, self.seeds(80), qual)[0]
                finally:
                    self.scal = frozenset()
                if not d:
                    und = ["entries used as factors"]
                    continue
            lines = localise(A[k], B[k], bad[k][0], voc, self.mro)
            r = Result(qual, "DIFF", f"variants {tried}", k, lines)
            r.outs = [k] + [x for x in bad if x != k]
            return r
        r = Result(qual, "UNKNOWN", f"differs in undecided vocabulary {und}")
        r.und = list(bad)
        return r


def factors(a, b):
    """entries x[i] that occur only as factors and divisors"""
    c, other = set(), set()
    for n in core.walk([a, b]):
        for i, x in enumerate(n.args):
            if x.op == "getitem" and (x.args[1].op in ("idx", "carry") or core.is_int(x.args[1]) or x.args[1].op == "bin"):
                (c if n.op == "bin" and n.attr in ("*", "/") else other).add(x.id)
    return frozenset(c - other)


TRANSP = {"int", "float", "list", "tuple", "np.array", "np.asarray", ".copy", "bool"}


def rewrite(n, memo, fn=None):
    todo = [n]
    while todo:
        x = todo[-1]
        if x.id in memo:
            todo.pop()
            continue
        miss = [c for c in x.args if c.id not in memo]
        if miss:
            todo.extend(miss)
            continue
        todo.pop()
        args = tuple(memo[c.id] for c in x.args)
        r = fn(x, args) if fn else None
        if r is None:
            r = x if args == tuple(x.args) else core.rebuild(x, args)
        memo[x.id] = r
    return memo[n.id]


def peel(n, memo):
    """the term without conversions"""
    def fn(x, args):
        if x.op in ("call", "mcall") and len(args) == 1 and (x.attr[0] in TRANSP or "." + str(x.attr[0]) in TRANSP):
            return args[0]
    return rewrite(n, memo, fn)


WRAP = {"sorted", "np.sort", "np.unique", "set", "np.cumsum", "np.flip", "np.diag", "np.cumprod", "np.diff", "reversed", "int"}
_SORT = {"sorted", "np.sort", ".sort", "np.unique", "np.argsort", "np.lexsort", ".unique", "set", "pd.unique", "comprehension", "map", ".sort_values", ".argsort", "bisect.insort"}
FAMILY = [({"sorted", "np.sort"}, _SORT), ({"np.unique"}, _SORT | {"dict", ".add", ".keys"}), ({"np.cumsum"}, {"np.cumsum", "np.add.accumulate", "itertools.accumulate", "map", "comprehension", ".cumsum", "np.tril"}),
          ({"np.isin", "np.in1d"}, {"np.isin", "np.in1d", "map", "comprehension", ".isin", "np.any", "any", "set", "np.intersect1d", "np.setdiff1d", "np.zeros", "np.full", "np.delete"}),
          ({"np.repeat", "np.tile"}, {"np.repeat", "np.tile", "np.full", "np.ones", "np.outer", "np.kron", "np.broadcast_to", "np.zeros", "map", "comprehension", ".repeat", "np.concatenate", "np.hstack", "np.vstack"}),
          ({"np.diag"}, {"np.diag", "scp.sparse.diags", "scp.sparse.diags_array", "np.identity", "np.eye", "np.einsum", "np.trace", ".diagonal", "np.diagonal", "np.fill_diagonal", "map", "comprehension", "np.sum", "np.zeros"})]
UNLIKE = [{"np.repeat", "np.tile"}, {"np.hstack", "np.vstack"}, {"np.zeros", "np.ones"}, {"any", "all"}, {"max", "min"}, {"np.cumsum", "np.cumprod"},
          {"np.max", "np.min"}, {"np.unique", "pd.unique"}, {"np.argmax", "np.argmin"}, {"np.nanmin", "np.nanmax"}, {"np.nanmin", "np.min"}, {"np.nanmax", "np.max"}, {"np.nanmean", "np.mean"},
          {"np.nansum", "np.sum"}, {"np.floor", "np.ceil"}, {"np.sort", "np.argsort"}, {"np.floor", "np.round"}, {"np.ceil", "np.round"}, {"np.var", "np.std"}, {"np.median", "np.mean"}, {"scp.sparse.hstack", "scp.sparse.vstack"}]


def remap(root, f):
    """bottom-up; f(node with new operands) -> node"""
    memo = {}
    stack = [(root, False)]
    while stack:
        x, done = stack.pop()
        if x.id in memo:
            continue
        if not done:
            stack.append((x, True))
            stack.extend((q, False) for q in x.args if q.id not in memo)
            continue
        na = tuple(memo[q.id] for q in x.args)
        memo[x.id] = f(x if all(p is q for p, q in zip(na, x.args)) else mk(x.op, na, x.attr))
    return memo[root.id]


def fractional(n):
    """a number that is not an integer in general"""
    if n.op == "bin":
        return n.attr == "/" or n.attr in ("+", "-", "*") and any(fractional(q) or core.is_num(q) and core.cval(q) != int(core.cval(q)) for q in n.args)
    return n.op == "sym" and n.attr[1] == "float" or n.op == "call" and n.attr[0] in ("np.sqrt", "np.log", "np.exp", "np.mean", "np.log1p")


def wrapped(a, b, new, fl):
    """a is b with one of its terms put through a library function that is not the identity (or with one function exchanged for one that does something
    else), and nothing else changed"""
    fl = set(fl)
    if not new or not new & fl:
        return False
    bad = []
    if fl <= new and fl <= WRAP:
        def f(n):
            if n.op == "call" and n.attr[0] in fl:
                if len(n.args) != 1 or n.attr[0] == "int" and not fractional(n.args[0]):
                    bad.append(n)
                    return n
                return n.args[0]
            return n
    elif len(new & fl) == 1 and (fl in UNLIKE or len(fl) == 1):
        for to in sorted(q for p in UNLIKE if p >= fl for q in p - new):
            def f(n):
                return mk("call", n.args, (to,) + tuple(n.attr[1:])) if n.op == "call" and n.attr[0] in new and n.attr[0] in fl else n
            memo = {}
            x = remap(a, f)
            canon(x, memo)
            canon(b, memo)
            if memo[x.id] == memo[b.id]:
                return True
        return False
    else:
        return False
    x = remap(a, f)
    memo = {}
    canon(x, memo)
    canon(b, memo)
    return not bad and memo[x.id] == memo[b.id]


def substitution_only(a, b):
    """every new smallest sub-term of a is a sub-term of b with some of its operands exchanged: no new computation was written"""
    memo = {}
    canon(a, memo)
    canon(b, memo)
    SA, SB = list(core.walk([a])), list(core.walk([b]))
    CA, CB = {memo[n.id] for n in SA}, {memo[n.id] for n in SB}
    na = [n for n in SA if memo[n.id] not in CB]
    ids = {n.id for n in na}
    leaf = [n for n in na if not any(x.id in ids for x in n.args)]
    pool = {}
    for n in SB:
        if memo[n.id] not in CA:
            pool.setdefault((n.op, len(n.args), repr(n.attr) if n.op in ("call", "mcall", "bin", "rcall", "cmp", "un") else ""), []).append(n)
    if not leaf:
        return True
    for n in leaf:
        if n.op in ("const", "sym", "enum", "lib"):
            continue
        if not pool.get((n.op, len(n.args), repr(n.attr) if n.op in ("call", "mcall", "bin", "rcall", "cmp", "un") else "")):
            return False
    return True


def canon(n, memo):
    """structural hash of a graph up to the names of bound indices"""
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x.id in memo:
            continue
        if not done:
            stack.append((x, True))
            stack.extend((a, False) for a in x.args if a.id not in memo)
            continue
        a = x.attr
        if x.op == "idx":
            a = "*"
        elif x.op == "carry":
            a = "*"
        elif x.op in ("sum", "map", "last", "flat", "dictmap", "psum", "scatter"):
            a = ("*",) + tuple(a[1:])
        elif x.op == "fold":
            a = ("*", len(a[1]), a[3])
        elif x.op == "lam":
            a = ("*", len(a[0])) + tuple(a[1:])
        memo[x.id] = hash((x.op, repr(a), tuple(memo[y.id] for y in x.args)))
    return memo[n.id]


def decisive(n, depth=0):
    """assignments in which one part of a condition decides it (both ways), as [{node id: truth}]"""
    if n.op == "not" and depth < 5:
        return [{**v, n.id: not v[n.args[0].id]} for v in decisive(n.args[0], depth + 1)]
    if n.op in ("and", "or") and depth < 5 and len(n.args) < 7:
        neutral = n.op == "and"
        out = []
        for i, a in enumerate(n.args):
            for v in decisive(a, depth + 1):
                w = dict(v)
                for j, b in enumerate(n.args):
                    if j != i:
                        w.setdefault(b.id, neutral)
                w[n.id] = v[a.id]
                if w not in out:
                    out.append(w)
        return out[:14]
    return [{n.id: True}, {n.id: False}]


def climb(n, par, roots, rnd):
    """a random way up from a node to an output: (output, conditions the way requires)"""
    for _ in range(30):
        want, x, ok = {}, n, True
        units, clauses, wn = {}, [], []
        for _ in range(4000):
            if x.id in roots and (x.id not in par or rnd.random() < .5):
                return roots[x.id], want, wn
            ps = par.get(x.id)
            if not ps:
                ok = x.id in roots
                break
            p, j = ps[rnd.randrange(len(ps))]
            req = []
            if p.op == "ite" and j > 0:
                req = [(p.args[0], j == 1)]
            elif p.op == "and":
                req = [(q, True) for q in (p.args[:j] if rnd.random() < .3 else p.args[:j] + p.args[j + 1:])]
            elif p.op == "or":
                req = [(q, False) for q in (p.args[:j] if rnd.random() < .3 else p.args[:j] + p.args[j + 1:])]
            elif p.op == "map" and j == 1 and len(p.args) == 3:
                req = [(p.args[2], True)]
            for c, t in req:
                if not assume(c, t, units, clauses):
                    ok = False
                    break
                want[c.id] = t
                wn.append(c)
            if not ok:
                break
            x = p
        if ok and x.id in roots:
            return roots[x.id], want, wn
    return None


def assume(c, t, units, clauses):
    """add a condition to those of a path; False if the propositional structure already contradicts it"""
    todo = [(c, t)]
    while todo:
        c, t = todo.pop()
        if c.op == "not":
            todo.append((c.args[0], not t))
            continue
        if c.op == "cmp" and c.attr in ("!=", "isnot", "notin"):
            c, t = mk("cmp", c.args, {"!=": "==", "isnot": "is", "notin": "in"}[c.attr]), not t
        if c.op == "cmp" and c.attr in ("is", "==") and c.args[1] in (core.TRUE, core.FALSE):
            todo.append((c.args[0], t == (c.args[1] is core.TRUE)))
            continue
        if c.op in ("and", "or"):
            if (c.op == "and") == t:
                todo.extend((a, t) for a in c.args)
            else:
                clauses.append([(a, t) for a in c.args])
            continue
        if units.get(c.id, t) != t:
            return False
        units[c.id] = t

    def known(c):
        if c.op == "not":
            k = known(c.args[0])
            return None if k is None else not k
        if c.op in ("and", "or"):
            ks = [known(a) for a in c.args]
            if c.op == "and":
                return False if False in ks else None if None in ks else True
            return True if True in ks else None if None in ks else False
        if c.op == "cmp" and c.attr in ("!=", "isnot", "notin"):
            k = units.get(mk("cmp", c.args, {"!=": "==", "isnot": "is", "notin": "in"}[c.attr]).id)
            return None if k is None else not k
        if c.op == "cmp" and c.attr in ("is", "==") and c.args[1] in (core.TRUE, core.FALSE):
            k = known(c.args[0])
            return None if k is None else k == (c.args[1] is core.TRUE)
        return units.get(c.id)
    for cl in list(clauses):
        if not any(x is cl for x in clauses):
            continue
        open_ = []
        for a, t in cl:
            k = known(a)
            if k is t:
                break
            if k is None:
                open_.append((a, t))
        else:
            if not open_:
                return False
            if len(open_) == 1:
                clauses[:] = [x for x in clauses if x is not cl]
                if not assume(open_[0][0], open_[0][1], units, clauses):
                    return False
    return True


def hotnums(n, par):
    out = set()
    for x in [n] + [p for p, _ in par.get(n.id, [])] + list(n.args):
        if x.op in ("cmp", "call"):
            for a in x.args:
                if core.is_num(a):
                    out.add(float(core.cval(a)))
    if core.is_num(n):
        out.add(float(core.cval(n)))
    return sorted(out)


def same(v1, v2):
    if isinstance(v1, float) and isinstance(v2, float):
        return abs(v1 - v2) <= 1e-6 * max(1e-3, abs(v1))
    if isinstance(v1, fp.np.ndarray) and isinstance(v2, fp.np.ndarray) and v1.dtype != bool and v2.dtype != bool:
        return v1.shape == v2.shape and bool(fp.np.all(abs(v1 - v2) <= 1e-6 * max(1e-3, float(fp.np.max(abs(v1), initial=0.0)))))
    if isinstance(v1, fp.Seq) and isinstance(v2, fp.Seq):
        return len(v1.items) == len(v2.items) and all(same(a, b) for a, b in zip(v1.items, v2.items))
    return fp.dig(v1) == fp.dig(v2)


def extrema(roots):
    """how many maxima, minima and absolute values: written as a comparison they differ only in which side is taken at equality"""
    c = {}
    for n in core.walk(roots):
        if n.op == "call" and n.attr[0] in ("np.maximum", "np.minimum", "np.clip", "np.abs", "np.sign"):
            c[n.attr[0]] = c.get(n.attr[0], 0) + 1
    return c


def names_of(roots):
    s = set()
    for n in core.walk(roots):
        if n.op == "call":
            nm = n.attr[0]
            if nm in fp.ELEM or hasattr(fp.Interp, "c_" + nm.replace(".", "_")) or nm in fp.IDENT:
                continue
            s.add(("call", nm))
        elif n.op == "mcall":
            s.add(("mcall", n.attr[0]))
        elif n.op in ("opaque_clo", "cyc", "mutated", "star", "map"):
            s.add(("op", n.op))
    return s


def rcalls(o):
    c = {}
    for n in core.walk(o.values()):
        if n.op == "rcall":
            c[n.attr[0]] = c.get(n.attr[0], 0) + 1
    return c


def heads(f):
    """statements of a function, compound ones by their header"""
    c = {}
    for n in ast.walk(f):
        if isinstance(n, ast.stmt) and n is not f and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, (ast.If, ast.While)):
                t = ast.unparse(n.test)
            elif isinstance(n, ast.For):
                t = ast.unparse(n.target) + " in " + ast.unparse(n.iter)
            elif isinstance(n, (ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
                t = type(n).__name__ + getattr(n, "name", "")
            else:
                t = ast.unparse(n)
            c[t] = c.get(t, 0) + 1
    return c


def headers(f):
    """how the loops and comprehensions of a function are driven"""
    out = []
    for x in ast.walk(f):
        if isinstance(x, (ast.For, ast.comprehension)):
            it = x.iter
            out.append(ast.unparse(it.func) if isinstance(it, ast.Call) else "")
        elif isinstance(x, ast.While):
            out.append("while")
    return sorted(out)


def has_loop(r):
    return any(n.op in ("fold", "flat", "scatter") for n in core.walk([r]))


def loops_differ(a, b):
    def sig(r):
        out = []
        seen = set()
        for n in core.walk([r]):
            if n.op == "fold":
                k = (n.attr[0],)
                if k in seen:
                    continue
                seen.add(k)
                out.append(tuple(sorted(n.attr[2])))
            elif n.op in ("flat", "scatter"):
                out.append((n.op,))
        return sorted(out)
    return sig(a) != sig(b)


def localise(a, b, trial, voc, mro):
    """source lines of the smallest sub-terms of a without counterpart in b"""
    sd, wild = trial[:2]
    salts, hot = trial[2:4] if len(trial) > 2 else (None, ())
    I1, I2 = fp.Interp(sd, wild, voc, mro, salts=salts, hot=hot), fp.Interp(sd, wild, voc, mro, salts=salts, hot=hot)
    have = set()

    def digs(I, root):
        d = {}
        for n in core.walk([root]):
            if n.free:
                continue
            try:
                d[n.id] = (n, fp.dig(I.val(n, {})))
            except Exception:
                pass
        return d
    d2 = digs(I2, b)
    have = {x for _, x in d2.values()}
    d1 = digs(I1, a)
    new = [n for n, x in d1.values() if x not in have]
    ids = {n.id for n in new}
    leaf = [n for n in new if not any(c.id in ids for c in n.args)]
    lines = sorted({n.line for n in leaf if n.line})
    return lines[:6]
