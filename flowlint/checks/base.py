"""Obligations, verdicts, evidence."""
import json
import os
import re

from .. import terms as T
from ..terms import Term
from ..project import Project, AnchorMissing

OK, BAD, UND = "holds", "violated", "undecided"


class Ob:
    def __init__(self, rule, where, status, detail, found=None, want=None):
        self.rule, self.where, self.status, self.detail = rule, where, status, detail
        self.found, self.want = found, want

    def key(self):
        m = re.search(r"\(([^()]*)\)\s*$", self.where)
        return f"{self.rule}|{m.group(1) if m else self.where}"


def txt(t, n=1600):
    if isinstance(t, tuple):
        s = "(" + ", ".join(txt(x, n) for x in t) + ")"
    else:
        try:
            s = T.lets(t) if isinstance(t, Term) else repr(t)
        except RecursionError:
            s = "<large term>"
    return s if len(s) <= n else s[:n] + " …"


class Ctx:
    """what one check run collects"""

    def __init__(self, pid, project=None):
        self.pid = pid
        self.p = project or Project()
        self.obs = []
        self.functions = set()
        self.sites = 0
        self.unks = []
        self.notes = []
        self.tier = "quick"
        self.cache = {}
        self.opaque_ops = ()

    # -- analysis bookkeeping
    def absorb(self, I):
        self.functions |= I.visited
        self.sites += I.sites
        self.unks += I.unks

    # -- places
    def where(self, cls, name=None):
        """file:line (Class.method) of the construct an obligation is about"""
        try:
            C = self.p.find_class(cls) if isinstance(cls, str) else cls
        except AnchorMissing:
            return str(cls)
        r = C.lookup(name) if name else None
        if r:
            c, node = r[0], r[2]
            return f"{rel(c.module.path)}:{getattr(node, 'lineno', 0)} ({c.name}.{name})"
        return f"{rel(C.module.path)}:{C.node.lineno} ({C.name})"

    # -- verdicts
    def ok(self, rule, where, detail=""):
        self.obs.append(Ob(rule, where, OK, detail))
        return True

    def bad(self, rule, where, detail, found=None, want=None):
        self.obs.append(Ob(rule, where, BAD, detail, found, want))
        return False

    def und(self, rule, where, detail):
        self.obs.append(Ob(rule, where, UND, detail))
        return None

    def same(self, rule, where, found, want, detail=""):
        if T.same(found, want):
            return self.ok(rule, where, detail)
        for x in (found, want):
            u = tainted(x)
            if u is not None:
                return self.und(rule, where, f"{detail}: depends on an unmodelled construct: {u.args[0]}")
        o = opaque(found, self.opaque_ops) ^ opaque(want, self.opaque_ops)
        if o:
            return self.und(rule, where, f"{detail}: depends on an array layout that is not resolved: "
                                         f"{txt(min(o, key=lambda t: t.uid), 200)}")
        return self.bad(rule, where, detail, found, want)

    def true(self, rule, where, cond, detail, *terms):
        """cond decided on modelled terms"""
        if cond:
            return self.ok(rule, where, detail)
        for x in terms:
            u = tainted(x)
            if u is not None:
                return self.und(rule, where, f"{detail}: depends on an unmodelled construct: {u.args[0]}")
        return self.bad(rule, where, detail, terms[0] if terms else None)


OPAQUE = ("reshape", "inferdim", "squeeze", "setsl", "oneat", "ellidx", "dsl", "expand", "atidx", "concatax", "flipall", "permute")


def opaque(x, more=()):
    """layout operations left unresolved in x: a difference in them says nothing about the values"""
    return {t for t in T.walk(x) if t.op in OPAQUE or t.op in more or t.op.startswith("jn_")}


def tainted(x):
    if isinstance(x, tuple):
        for y in x:
            u = tainted(y)
            if u is not None:
                return u
        return None
    return T.taint(x) if isinstance(x, Term) else None


def rel(path):
    root = os.environ.get("FLOWLINT_REPO", "/repo")
    p = str(path)
    return os.path.relpath(p, root) if p.startswith(root) else p


def relsite(s):
    path, _, line = s.rpartition(":")
    return rel(path) + ":" + line
