"""Buffers, states, and the two strategies that only update or call: what one update changes."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import scen
from .base import tainted, relsite, txt

KEY, RES, X0, DATA = [T.sym(n) for n in ("rng_key", "resources", "initial_position", "data")]


def method(ctx, C, name, args, me=None):
    I = Interp(ctx.p)
    s = me if me is not None else scen.new_self(C)
    r = I.call(I.get_attr(s, name, None), args, {}, None)
    ctx.absorb(I)
    return I, s, r


def stores(ctx, I, R, w, allowed, what):
    """every store of the evaluation goes to an allowed object"""
    for e in I.events:
        if e.kind not in ("setattr", "setitem", "delete"):
            continue
        o = e.__dict__.get("obj")
        if isinstance(o, Term) and o.op != "new" and not allowed(e, o):
            ctx.bad(R, f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})", what, o)


def c30_buffer(ctx):
    C = ctx.p.find_class("Buffer")
    w = ctx.where(C, "update_buffer")
    u, st = T.sym("updates"), T.sym("start")
    for lab, args, start in (("at", [u, st], st), ("default", [u], 0)):
        I, s, _ = method(ctx, C, "update_buffer", args)
        A = lambda n: mk("attr", s, n)
        got = I.freeze(I.get_attr(s, "data", None))
        if tainted(got) is not None:
            ctx.und(f"C30.rows.{lab}", w, f"depends on an unmodelled construct: {tainted(got).args[0]}")
        elif isinstance(got, Term) and got.op == "dus":
            v = got.args[1]
            while isinstance(v, Term) and v.op == "cast":
                v = v.args[0]
            if isinstance(v, Term) and v.op == "sel" and T.contains((v.args[1], v.args[2]), A("data")) \
                    and (T.same(v.args[1], u) or T.same(v.args[2], u)):
                ctx.bad(f"C30.rows.{lab}", w, "rows of the update are written only under a condition, what was there "
                                              "before is kept otherwise", v.args[0])
                continue
            ctx.same(f"C30.rows.{lab}", w, got, mk("dus", A("data"), u, start, A("cursor_dim")),
                     "an update replaces the rows from its start on, along the buffer's own axis, and no others")
        elif isinstance(got, Term) and (got is A("data") or not T.contains(got, u) or not T.contains(got, A("data"))):
            ctx.bad(f"C30.rows.{lab}", w, "an update replaces the rows from its start on, and no others", got)
        else:
            ctx.und(f"C30.rows.{lab}", w, "the rows an update replaces are not found")
        for n in ("name", "cursor_dim"):
            ctx.same(f"C30.kept.{n}", w, I.freeze(I.get_attr(s, n, None)), A(n), f"an update does not change the {n} of the buffer")
        stores(ctx, I, "C30.only", w, lambda e, o: o is s, "an update of a buffer changes that buffer only")
    w = ctx.where(C, "__init__")
    I = Interp(ctx.p)
    n, d = T.sym("name"), T.sym("dim")
    shape = tuple(T.sym(f"n{k}") for k in range(3))
    s = I.call(C, [n, shape], {"cursor_dim": d}, None)
    ctx.absorb(I)
    g = lambda a: I.freeze(I.get_attr(s, a, None))
    i = [T.sym(f"i{k}") for k in range(3)]
    x = g("data")
    e = x
    for k in i:
        e = T.elem(e, k) if isinstance(e, Term) else e
    ctx.true("C30.new.empty", w, isinstance(e, Term) and txt(e) in ("-inf()", "-inf") or T.same(e, T.neg(mk("inf"))),
             "a new buffer is filled with minus infinity", e)
    for k in range(3):
        ctx.same(f"C30.new.shape", w, T.dim(x, k) if isinstance(x, Term) else None, shape[k], "a new buffer has the shape asked for")
    ctx.same("C30.new.cursor", w, g("cursor"), 0, "the cursor of a new buffer is at its first row")
    ctx.same("C30.new.axis", w, g("cursor_dim"), d, "the axis of a new buffer")
    ctx.same("C30.new.name", w, g("name"), n, "the name of a new buffer")
    I, s, r = method(ctx, C, "__call__", [])
    ctx.same("C30.content", ctx.where(C, "__call__"), I.freeze(r), mk("attr", s, "data"), "calling a buffer gives its content")


def merged(base, ks, vs):
    i = T.fresh("i")
    n = T.length(ks)
    return mk("dct", base, (mk("seg", T.comp(i, mk("tup", ((T.elem(ks, i), T.elem(vs, i)),)), n), n),))


def state(ctx, R, w, I, base, ks, vs, obj):
    """the state's dictionary has the new values under the given keys, in order, and is otherwise unchanged"""
    got = I.freeze(I.get_attr(obj, "data", None))
    if isinstance(got, Term):
        got = T.subst(got, {T.length(vs): T.length(ks)})
    if isinstance(got, Term) and not tainted(got) and (got is base or not T.contains(got, ks) or not T.contains(got, vs)):
        ctx.bad(R, w, "each of the given keys gets its value", got)
    elif converted(I, base, vs):
        ctx.bad(R, w, "each of the given keys gets its value itself, not a conversion of it", converted(I, base, vs))
    elif conditional(I, base, ks, vs):
        ctx.bad(R, w, "each of the given keys gets its value, whatever the state holds", conditional(I, base, ks, vs))
    elif isinstance(got, Term) and got.op == "dct":
        ctx.same(R, w, got, merged(base, ks, vs), "each of the given keys gets its value, the other entries stay")
    else:
        ctx.und(R, w, "the entries an update writes are not found")


def converted(I, base, vs):
    """the value stored, if it is what a class makes of one of the given values"""
    for e in I.events:
        if e.kind == "setitem" and e.obj is base and isinstance(e.value, Term):
            for a in I.events:
                if a.kind == "app" and a.__dict__.get("term") is e.value and isinstance(a.fn, Term) and a.fn.op == "classof" \
                        and any(isinstance(x, Term) and x.op == "elem" and x.args[0] is vs for x in a.args):
                    return e.value
    return None


def conditional(I, base, ks, vs):
    """the condition under which the only store of a value is made, if it says nothing about the value"""
    es = [e for e in I.events if e.kind == "setitem" and e.obj is base]
    if len(es) != 1 or not es[0].loops:
        return None
    gs = [g for g in es[0].guards if isinstance(g, Term)]
    if not gs or any(tainted(g) is not None or T.contains(g, vs) for g in gs) or not any(T.contains(g, base) for g in gs):
        return None
    return gs[0]


def c30_state(ctx):
    C = ctx.p.find_class("State")
    w = ctx.where(C, "update")
    ks, vs = T.sym("keys"), T.sym("values")
    I, s, _ = method(ctx, C, "update", [ks, vs])
    base = mk("attr", s, "data")
    state(ctx, "C30.state", w, I, base, ks, vs, s)
    ctx.same("C30.state.name", w, I.freeze(I.get_attr(s, "name", None)), mk("attr", s, "name"), "an update does not rename the state")
    stores(ctx, I, "C30.state.only", w, lambda e, o: o is s or o is base, "an update of a state changes that state only")


def c30_strategies(ctx):
    C = ctx.p.find_class("UpdateState")
    w = ctx.where(C, "__call__")
    I, r = scen.run_strategy(ctx, C)
    me = T.sym("self")
    A = lambda n: mk("attr", me, n)
    st = mk("elem", RES, A("state_name"))
    base = mk("attr", st, "data")
    state(ctx, "C30.update", w, I, base, A("keys"), A("values"), st)
    stores(ctx, I, "C30.update.only", w, lambda e, o: o is st or o is base or o is me or e.kind == "setitem" and o is RES
           and I.freeze(e.value) is st, "only the configured state is changed")
    unchanged(ctx, "C30.update", w, I, r)
    C = ctx.p.find_class("Lambda")
    w = ctx.where(C, "__call__")
    I, r = scen.run_strategy(ctx, C)
    fn = A("lambda_function")
    calls = [e for e in I.events if e.kind == "app" and e.fn is fn]
    if calls or not I.unks:
        once = len(calls) == 1 and not calls[0].loops and not calls[0].guards
        ctx.true("C30.lambda.once", w, once, f"the function is called exactly once ({len(calls)} calls, {[txt_guards(e) for e in calls]})")
        for e in calls[:1]:
            ctx.same("C30.lambda.arguments", w, tuple(I.freeze(a) for a in e.args), (KEY, RES, X0, DATA),
                     "the function gets the key, resources, positions and data of the strategy")
    else:
        ctx.und("C30.lambda.once", w, "the call of the function is not found")
    unchanged(ctx, "C30.lambda", w, I, r)


def txt_guards(e):
    return f"{len(e.guards)} conditions, {len(e.loops)} loops"


def unchanged(ctx, R, w, I, r):
    r = I.items(r) if isinstance(r, Term) else r
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und(R + ".returns", w, "the values returned are not found")
        return
    for v, want, n in zip(r, (KEY, RES, X0), ("key", "resources", "positions")):
        ctx.same(f"{R}.returns.{n}", w, want if v is want else I.freeze(v), want, f"{n} handed on as received")
