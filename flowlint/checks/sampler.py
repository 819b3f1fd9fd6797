"""Sampler: construction, and the loop over the strategies."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import scen
from .base import tainted, relsite, txt

X0, DATA = T.sym("initial_position"), T.sym("data")


def c23_sample(ctx):
    C = ctx.p.find_class("Sampler")
    w = ctx.where(C, "sample")
    I = Interp(ctx.p)
    s = scen.new_self(C)
    T.RANK[X0] = 2
    A = lambda n: mk("attr", s, n)
    I.call(I.get_attr(s, "sample", None), [X0, DATA], {}, None)
    ctx.absorb(I)
    res = I.freeze(I.get_attr(s, "resources", None))
    u = tainted(res)
    if u is not None:
        ctx.und("C23.loop", w, f"depends on an unmodelled construct: {u.args[0]}")
        return
    if not (isinstance(res, Term) and res.op == "fin"):
        if res is A("resources"):
            ctx.bad("C23.loop", w, "the resources a run leaves are those of the last strategy in the order", res)
        else:
            ctx.und("C23.loop", w, f"loop over the strategies not found in the resources a run leaves: {txt(res, 300)}")
        return
    lp, k = res.args
    vs, init, nxt, _, idx, n = lp.args[:6]
    order = A("strategy_order")
    ctx.same("C23.length", w, n, T.length(order), "every entry of the order is visited")
    ctx.true("C23.forward", w, not lp.args[6], "in order")
    calls = {u for x in nxt if isinstance(x, Term) for u in T.walk(x) if u.op in ("app", "mcall") and strategy_call(u, A("strategies"))}
    calls = {c for c in calls}
    if len(calls) != 1:
        if calls:
            ctx.true("C23.call", w, False, f"one strategy call per entry of the order ({len(calls)} found)", *[x for x in nxt if isinstance(x, Term)])
        else:
            ctx.und("C23.call", w, f"strategy call not found in the loop over the order: {txt(tuple(nxt), 300)}")
        return
    c = calls.pop()
    name, args = strategy_call(c, A("strategies"))
    ctx.same("C23.name", w, name, T.elem(order, idx), "the strategy called is the one the order names at this place")
    if len(args) != 4:
        ctx.und("C23.args", w, f"arguments of the strategy call: {txt(c, 300)}")
        return
    roles = (("key", A("rng_key")), ("resources", A("resources")), ("positions", X0))
    for j, (role, first) in enumerate(roles):
        if args[j] not in vs:
            ctx.true(f"C23.{role}", w, False, f"a strategy gets the {role} its predecessor returned", args[j])
            continue
        q = vs.index(args[j])
        ctx.same(f"C23.{role}.first", w, init[q], first, f"the first strategy gets the caller's {role}")
        ctx.same(f"C23.{role}", w, nxt[q], T.elem(c, j), f"each strategy gets the {role} its predecessor returned")
        if role == "resources":
            ctx.true("C23.kept", w, q == k or T.same(nxt[k], T.elem(c, j)) and T.same(init[k], first), "the sampler keeps the resources the last strategy returned", res)
    ctx.same("C23.data", w, args[3], DATA, "every strategy gets the caller's data")
    refused = [e for e in I.events if e.kind == "raise" and any(
        T.contains(g, A("strategies")) or T.contains(g, order) for g in e.guards if isinstance(g, Term))]
    if refused:
        e = refused[0]
        # entries of the strategies are strategies, so a lookup gives None exactly for names that are missing
        seen = [T.expand(g, lambda u: T.not_(u.args[0].args[0]) if u.op == "isnone" and isinstance(u.args[0], Term)
                         and u.args[0].op == "sel" and u.args[0].args[2] is None
                         and T.same(u.args[0].args[1], T.elem(A("strategies"), T.elem(order, e.loops[-1][0]) if e.loops else name))
                         else None) for g in e.guards if isinstance(g, Term)]
        want = T.not_(mk("in", T.elem(order, e.loops[-1][0]) if e.loops else name, A("strategies")))
        ctx.true("C23.refused", f"{relsite(e.site)} ({C.name}.sample)", all(T.same(g, want) for g in seen),
                 "a run is refused for names that are not strategies, and for no other", *[g for g in e.guards if isinstance(g, Term)])
    for e in I.events:
        if e.kind in ("setattr", "setitem") and isinstance(e.obj, Term) and not (e.obj is s and e.name == "resources" if e.kind == "setattr" else False):
            if e.obj.op == "new":
                continue
            ctx.true("C23.effects", f"{relsite(e.site)} ({C.name}.sample)",
                     e.kind == "setattr" and e.obj is s and e.name in ("rng_key", "last_step"),
                     "a run changes the sampler's resources only", e.obj)


def strategy_call(u, strategies):
    """(name, arguments) of a call of an entry of the strategies"""
    f = u.args[0]
    if u.op == "app":
        fn, args = f, u.args[1]
        if isinstance(fn, Term) and fn.op in ("attr", "meth") and fn.args[1] == "__call__":
            fn = fn.args[0]
    else:
        if u.args[1] != "__call__":
            return None
        fn, args = f, u.args[2]
    if isinstance(fn, Term) and fn.op == "elem" and fn.args[0] is strategies:
        kw = {a[0]: a[1] for a in args if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str)}
        if kw:
            args = [a for a in args if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str))]
            for p in ("rng_key", "resources", "initial_position", "data")[len(args):]:
                if p in kw:
                    args.append(kw[p])
        return fn.args[1], args
    return None


def c23_init(ctx):
    C = ctx.p.find_class("Sampler")
    w = ctx.where(C, "__init__")
    req = {n: T.sym(n) for n in ("n_dim", "n_chains", "rng_key")}
    b = T.sym("bundle")
    given = {n: T.sym(n) for n in ("resources", "strategies", "strategy_order")}
    N = ("resources", "strategies", "strategy_order")
    for lab, kw, want in (
            ("given", given, dict(given)),
            ("given.both", dict(given, resource_strategy_bundles=b), dict(given)),
            ("partial", {"resources": given["resources"], "resource_strategy_bundles": b}, {n: mk("attr", b, n) for n in N}),
            ("bundle", {"resource_strategy_bundles": b}, {n: mk("attr", b, n) for n in N})):
        I = Interp(ctx.p)
        s = I.call(C, [], dict(req, **kw), None)
        ctx.absorb(I)
        for n, v in {**req, **want}.items():
            got = I.freeze(I.get_attr(s, n, None))
            if isinstance(got, Term):
                got = T.expand(got, lambda u: False if u.op == "isnone" else None)
            ctx.same(f"C23.init.{lab}.{n}", w, got, v, f"{n} of the sampler")
    I = Interp(ctx.p)
    I.call(C, [], dict(req), None)
    ctx.absorb(I)
    ctx.true("C23.init.neither", w, any(e.kind == "raise" for e in I.events), "a sampler with nothing to run is refused")
    for n in ("verbose", "logging", "outdir"):
        if not C.lookup(n):
            continue
        I = Interp(ctx.p)
        v = T.sym("option")
        s = I.call(C, [], dict(req, resource_strategy_bundles=b, **{n: v}), None)
        ctx.absorb(I)
        got = I.freeze(I.get_attr(s, n, None))
        got = T.expand(got, lambda u: True if u.op == "in" else None) if isinstance(got, Term) else got
        ctx.same(f"C23.option.{n}", w, got, v, f"the option {n} is taken over")
