"""Driver: collects the obligations of one property, decides them, writes evidence and reports."""
from __future__ import annotations
import ast
import hashlib
import json
import multiprocessing as mp
import os
import re
import threading
import time
from . import spec
from .repo import Repo, param_names
from .equiv import Validator, Result, ast_key

LIMIT = {"quick": 420, "thorough": 3000}
PER_FN = {"quick": 25, "thorough": 120}


def want_out(prop, out, qual="", ref=None):
    """outputs of a function a property speaks about"""
    if prop == "P16":
        if ref is not None and not any(re.match(p, qual) for p in spec.QUERY):
            # not a query itself: what it stores is the business of other properties, but the caller's objects stay as they are
            e = ref.eff.fn.get(qual)
            return out.startswith("mut:") and out[4:] != "self" and e is not None and out[4:] not in e.mut
        return out.startswith(("self.", "mut:", "heap:", "eff:"))
    if prop == "P28":
        return out.startswith(("raise:", "warn:"))
    return True


class Ctx:
    """module level context: what a name means, class layout, constants"""
    def __init__(self, repo):
        self.repo = repo

    def key(self, m):
        mod = self.repo.mods[m]
        out = []

        def strip(b):
            for s in b:
                if isinstance(s, ast.FunctionDef):
                    out.append("def " + s.name)
                elif isinstance(s, ast.ClassDef):
                    out.append("class " + s.name + " ".join(ast.unparse(x) for x in s.bases + s.decorator_list))
                    strip(s.body)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    pass
                else:
                    out.append(ast.dump(s))
        strip(mod.tree.body)
        return "|".join(out)


def changed_context(cur, ref):
    a, b = Ctx(cur), Ctx(ref)
    return {m for m in set(cur.mods) | set(ref.mods) if m not in cur.mods or m not in ref.mods or a.key(m) != b.key(m)}


def constants(cur, ref, mods):
    """differences of module constants, class attributes, enumerations and base classes"""
    out = []

    def lit(e):
        try:
            return repr(ast.literal_eval(e))
        except Exception:
            return None
    for m in mods:
        if m not in cur.mods or m not in ref.mods:
            continue
        c, r = cur.mods[m], ref.mods[m]
        for g in r.globals:
            if g in c.globals:
                x, y = lit(c.globals[g]), lit(r.globals[g])
                if x is not None and y is not None and x != y:
                    out.append((m, g, c.globals[g].lineno, f"constant {y} became {x}"))
        for k in r.classes:
            if k not in c.classes:
                continue
            cc, rc = c.classes[k], r.classes[k]
            ra = [x.name for x in ref.mro(rc)]
            ca = [x.name for x in cur.mro(cc)]
            if [x for x in ca if x in ra] != ra:
                out.append((m, k, cc.node.lineno, f"ancestors {ra} became {ca}"))
            rattr, cattr = {}, {}
            for src, dst, rep in ((rc, rattr, ref), (cc, cattr, cur)):
                for x in reversed(rep.mro(src)):
                    dst.update({n: v for n, v in x.attrs.items()})
            for n, v in rattr.items():
                if n in cattr:
                    x, y = lit(cattr[n]), lit(v)
                    if x is not None and y is not None and x != y:
                        out.append((m, f"{k}.{n}", cattr[n].lineno, f"attribute {y} became {x}"))
            if rc.is_enum or rc.is_dataclass:
                rf = [n for n, _ in rc.fields]
                cf = [n for n, _ in cc.fields]
                if rc.is_enum and not set(rf) <= set(cf):
                    out.append((m, k, cc.node.lineno, f"members {rf} became {cf}"))
                if rc.is_dataclass and cf[:len(rf)] != rf and not set(rf) <= set(cf):
                    out.append((m, k, cc.node.lineno, f"fields {rf} became {cf}"))
    return out


def counterpart(cur, ref, qual):
    """(function of the working tree, function of the reference) that decide what calling `qual` does"""
    if qual in cur.funcs and qual in ref.funcs:
        return qual, qual
    if qual in ref.funcs:
        m, c = ref.owner[qual]
        nm = qual.split(".")[-1]
        if c is not None:
            k = cur.find_class(c.name, cur.mods.get(m.name)) or cur.find_class(c.name)
            if k is not None:
                q = cur.method(k, nm)
                if q:
                    return q, qual
                # the constructor or method is no longer defined anywhere
                return None, qual
        else:
            if m.name in cur.mods:
                r = cur.resolve(cur.mods[m.name], nm)
                if r and r[0] == "func":
                    return r[1], qual
        return None, qual
    m, c = cur.owner[qual]
    nm = qual.split(".")[-1]
    if c is not None:
        k = ref.find_class(c.name)
        if k is not None:
            q = ref.method(k, nm)
            if q:
                return qual, q
    return qual, None


def callers(repo, qual):
    nm = qual.split(".")[-1]
    out = set()
    for q, f in repo.funcs.items():
        for n in ast.walk(f):
            if (isinstance(n, ast.Name) and n.id == nm) or (isinstance(n, ast.Attribute) and n.attr == nm):
                if q != qual:
                    out.add(q)
                break
    return out


def shape(f):
    rets = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Return) and n.value is not None:
            rets.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) else 1)
    return param_names(f), tuple(sorted(rets))


def public(qual):
    nm = qual.split(".")[-1]
    return not nm.startswith("_") or nm == "__init__"


class Equiv:
    """decides all changed functions in parallel worker processes"""
    def __init__(self, cur, ref, seed, tier, deadline):
        self.cur, self.ref, self.seed, self.tier, self.deadline = cur, ref, seed, tier, deadline
        self.V = None

    def one(self, job):
        qc, qr, inline = job
        V = self.V
        try:
            if qc == qr and not inline:
                r = V.check(qc)
            elif inline:
                r = V.check_inlined(qc, inline)
            else:
                r = V.check_pair(qc, qr)
        except BaseException as e:
            r = Result(qc, "UNKNOWN", "analysis error " + repr(e)[:160])
        return {"qual": r.qual, "verdict": r.verdict, "why": r.why, "out": r.out, "outs": getattr(r, "outs", None) or ([r.out] if r.out else []), "lines": r.lines, "stats": V.stats}

    def many(self, jobs):
        res = {}
        todo = list(jobs)
        if todo and self.V is None:
            self.V = Validator(self.cur, self.ref, self.seed, self.tier, budget_s=PER_FN[self.tier])
        live = []
        ctx = mp.get_context("fork")
        n = max(2, min(8, os.cpu_count() or 2))
        while todo or live:
            while todo and len(live) < n:
                j = todo.pop(0)
                if time.time() > self.deadline:
                    res[j] = {"qual": j[0], "verdict": "UNKNOWN", "why": "time limit of the check", "out": None, "outs": [], "lines": [], "stats": {}}
                    continue
                a, b = ctx.Pipe(False)

                def work(j=j, b=b):
                    def go():
                        b.send(self.one(j))
                    t = threading.Thread(target=go)
                    t.start()
                    t.join()
                    b.close()
                    os._exit(0)
                p = ctx.Process(target=work)
                p.start()
                b.close()
                live.append((j, p, a, time.time()))
            nxt = []
            for j, p, a, t0 in live:
                if a.poll(0.02):
                    try:
                        res[j] = a.recv()
                    except EOFError:
                        res[j] = {"qual": j[0], "verdict": "UNKNOWN", "why": "analysis process ended", "out": None, "outs": [], "lines": [], "stats": {}}
                    p.join()
                elif not p.is_alive() and not a.poll(0.05):
                    res[j] = {"qual": j[0], "verdict": "UNKNOWN", "why": "analysis process ended", "out": None, "outs": [], "lines": [], "stats": {}}
                elif time.time() > self.deadline + 60:
                    p.kill()
                    res[j] = {"qual": j[0], "verdict": "UNKNOWN", "why": "time limit of the check", "out": None, "outs": [], "lines": [], "stats": {}}
                else:
                    nxt.append((j, p, a, t0))
            live = nxt
        return res


def scope(prop, cur, ref):
    pats = [re.compile(p) for p in spec.FN[prop]]
    return sorted(q for q in set(cur.funcs) | set(ref.funcs) if any(p.match(q) for p in pats))


def run(a, here):
    t0 = time.time()
    prop = a.prop
    cur = Repo(os.path.join(a.repo, "src/mssm"))
    ref = Repo(os.path.join(here, "spec/ref"))
    known = load_known(here, prop)
    deadline = t0 + LIMIT[a.tier]
    findings = []           # (key, file, line, text)
    notes = []
    for f, why in sorted(cur.cpp_failed.items()):
        notes.append(f"{f}: outside the translated C++ subset, undecided: {why}")
    cov = {}

    # 1. the property's functions, as value graphs, against the reviewed reference model
    quals = scope(prop, cur, ref)
    if a.only:
        quals = [q for q in quals if q == a.only]
    if not a.only and len([q for q in quals if q in ref.funcs]) == 0:
        print(f"analysis broken: no function of the scope of {prop} found")
        return 2
    cctx = changed_context(cur, ref)
    same_ctx = not cctx
    jobs, same, broken = [], [], []
    for q in quals:
        qc, qr = counterpart(cur, ref, q)
        if qc is None:
            if public(q):
                notes.append(f"{q} no longer exists under that name; its callers are compared with what they call instead")
            else:
                notes.append(f"helper {q} no longer exists; its callers are compared with its body in place")
            continue
        if qr is None:
            notes.append(f"new function {q}: analysed through its callers")
            continue
        if qc == qr and ast_key(cur.funcs[qc]) == ast_key(ref.funcs[qr]) and same_ctx:
            same.append(q)
            continue
        jobs.append((qc, qr, None))
    jobs = sorted(set(jobs))
    # a function whose own syntax is unchanged but that calls a changed/new/vanished helper of non-modular kind is compared too: the builder inlines it
    E = Equiv(cur, ref, a.seed, a.tier, deadline)
    vanished = {q for q in ref.funcs if q not in cur.funcs} | {q for q in cur.funcs if q not in ref.funcs}
    names = {q.split(".")[-1] for q in vanished}
    extra = []
    if names:
        for q in same:
            f = cur.funcs[q]
            if any((isinstance(n, ast.Attribute) and n.attr in names) or (isinstance(n, ast.Name) and n.id in names) for n in ast.walk(f)):
                extra.append((q, q, None))
    same = [q for q in same if (q, q, None) not in extra]
    res = E.many(sorted(set(jobs) | set(extra)))
    if not a.only and quals and not any(q in cur.funcs or counterpart(cur, ref, q)[0] for q in quals):
        print(f"analysis broken: none of the functions of {prop} exist any more")
        broken.append("scope")
    diffs, equal, unknown = [], [], []
    for j, r in sorted(res.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        if r["verdict"] == "EQUAL":
            equal.append(j[0])
        elif r["verdict"] == "DIFF":
            diffs.append((j, r))
        else:
            unknown.append((j[0], r["why"]))
    # 2. helpers that changed together with all of their callers
    keep = []
    for j, r in diffs:
        qc, qr, _ = j
        fc, fr = cur.funcs[qc], ref.funcs.get(qr)
        reshaped = fr is None or shape(fc) != shape(fr)
        moved = reshaped or not public(qc)
        if moved and (cur.owner[qc][1] is None or reshaped and not public(qc)):
            cs = callers(cur, qc) | callers(ref, qc)
            if cs and all(c in cur.funcs and c in ref.funcs for c in cs):
                rr = E.many([(c, c, frozenset([qc])) for c in sorted(cs)])
                if all(x["verdict"] == "EQUAL" for x in rr.values()):
                    notes.append(f"{qc} changed together with its callers {sorted(cs)}, which are unchanged with it in place")
                    equal.append(qc)
                    continue
                if reshaped and fr is not None and all(x["verdict"] != "DIFF" for x in rr.values()) and all(ast_key(cur.funcs[c]) != ast_key(ref.funcs[c]) for c in cs):
                    unknown.append((qc, f"changed its interface together with its callers {sorted(cs)}, which are not decided with it in place"))
                    continue
        keep.append((j, r))
    for j, r in keep:
        qc0 = j[1] if j[1] in ref.funcs else j[0]
        outs = [o for o in r["outs"] if o and want_out(prop, o, qc0, ref)]
        if not outs:
            notes.append(f"{j[0]} changed in {r['outs']}: not an output this property speaks about")
            continue
        qc = j[0]
        path = os.path.relpath(cur.owner[qc][0].path, a.repo)
        line = r["lines"][0] if r["lines"] else cur.funcs[qc].lineno
        findings.append((f"model:{qc}:{outs[0]}", path, line, f"{qc}: output '{outs[0]}' is no longer the value the reviewed model computes (construct at line(s) {r['lines'][:6]}; {r['why']})"))
    # 3. constants and class layout
    if prop in spec.CTX:
        for m, nm, line, txt in constants(cur, ref, [x for x in spec.CTX[prop] if x in cctx]):
            findings.append((f"const:{m}.{nm}", os.path.relpath(cur.mods[m].path, a.repo), line, f"{m}.{nm}: {txt}"))
    cov["functions_in_scope"] = len(quals)
    cov["identical_syntax"] = len(same)
    cov["value_graphs_compared"] = len(res)
    cov["equal"] = len(equal)
    cov["undecided"] = [f"{q}: {w}" for q, w in unknown][:40]
    # 4. obligations decided without the reference model
    from . import oblig
    obs = oblig.discharge(prop, cur, a.tier, a.seed, deadline + 120)
    cov["obligations"] = obs["total"]
    cov["discharged"] = obs["ok"]
    cov["obligation_kinds"] = obs["kinds"]
    cov["obligations_undecided"] = obs["undecided"][:40]
    for key, qual, line, txt in obs["bad"]:
        m = cur.owner[qual][0].path if qual in cur.owner else (cur.mods[qual].path if qual in cur.mods else qual)
        findings.append((key, os.path.relpath(m, a.repo) if os.path.isabs(m) else m, line, txt))
    if obs.get("vacuous"):
        notes.append("fewer sites than confirmed by hand on the reviewed tree: " + "; ".join(obs["vacuous"]))
        cov["vacuous"] = obs["vacuous"]

    # report
    print(f"{prop}: {len(quals)} functions in scope, {len(same)} unchanged, {len(res)} compared as value graphs ({len(equal)} equal, {len(unknown)} undecided), "
          f"{obs['total']} obligations ({obs['ok']} discharged, {len(obs['undecided'])} undecided) in {time.time() - t0:.1f} s")
    for n in notes:
        print("note: " + n)
    for q, w in unknown:
        print(f"undecided: {q}: {w}")
    new = []
    for key, path, line, txt in findings:
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
        else:
            new.append((key, path, line, txt))
    ev = os.path.join(here, "evidence")
    os.makedirs(ev, exist_ok=True)
    nprog = len(res) + len(same)
    evidence = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "translation_validation",
                "coverage": {"programs": nprog, "disagreements_checked": len(diffs) + len(obs["bad"]) + len(unknown),
                             "samples": (obs["samples"][:8] + [f"{q}: identical syntax in identical module context" for q in same[:3]] + [f"{q}: value graphs agree" for q in equal[:5]]) or ["none"],
                             "explanation": "value graphs of the working tree's functions compared with the reviewed model, plus obligations decided on the working tree alone", **cov},
                "assumptions": ["library calls (numpy, scipy, pandas, native extensions) with equal names and equal arguments have equal results",
                                "random interpretation: two value graphs that agree under all sampled and steered interpretations are taken as equal"],
                "violations": [{"key": k, "file": p, "line": l, "text": t} for k, p, l, t in new], "wall_s": round(time.time() - t0, 2)}
    tmp = os.path.join(ev, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(ev, f"{prop}.json"))
    if new:
        rp = os.path.join(ev, "replay")
        os.makedirs(rp, exist_ok=True)
        for k, p, l, t in new:
            fn = os.path.join(rp, f"{prop}-{hashlib.sha1(k.encode()).hexdigest()[:10]}.json")
            with open(fn, "w") as f:
                json.dump({"property": prop, "rule": k, "file": p, "line": l, "report": t, "replay": f"python3-vt {here}/run.py {prop}"}, f, indent=1)
            print(f"{p}:{l}: {t}")
            print(f"VIOLATION property={prop} replay={fn}")
        return 1
    if broken:
        return 2
    return 0


def load_known(here, prop):
    out = {}
    p = os.path.join(here, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[d["key"]] = d["what"]
    return out
