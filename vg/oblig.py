"""Obligations decided on the working tree alone (no reference model)."""
from __future__ import annotations

RULES = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


class Ob:
    def __init__(self, cur, tier, seed, deadline):
        self.cur, self.tier, self.seed, self.deadline = cur, tier, seed, deadline
        self.total = self.nok = 0
        self.bad, self.undecided, self.samples, self.kinds, self.vacuous = [], [], [], {}, []

    def ok(self, kind, text):
        self.total += 1
        self.nok += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if len(self.samples) < 12 and self.kinds[kind] <= 3:
            self.samples.append(f"{kind}: {text}")

    def fail(self, kind, key, qual, line, text):
        self.total += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.bad.append((f"{kind}:{key}", qual, line, text))

    def dunno(self, kind, text):
        self.total += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.undecided.append(f"{kind}: {text}")

    def atleast(self, kind, n):
        if self.kinds.get(kind, 0) < n:
            self.vacuous.append(f"rule {kind} matched {self.kinds.get(kind, 0)} sites, at least {n} were confirmed by hand")


def discharge(prop, cur, tier, seed, deadline):
    from . import rules, lint  # noqa: F401  (register the rules)
    ob = Ob(cur, tier, seed, deadline)
    for f in RULES.get(prop, []):
        f(ob)
    return {"total": ob.total, "ok": ob.nok, "kinds": ob.kinds, "undecided": ob.undecided, "bad": ob.bad, "samples": ob.samples, "vacuous": ob.vacuous}
