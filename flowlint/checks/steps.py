"""Strategies that advance the chains and record them (TakeSteps and its variants)."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from . import mh
from .scen import KEY, DATA, RES, X0, new_self, run_strategy, configurations
from .base import tainted, txt, relsite, rel

CLASSES = ("TakeSerialSteps", "TakeGroupSteps")
SELF = T.sym("self")
BN = mk("attr", SELF, "buffer_names")
NAMES = ("position", "log-probability", "acceptance")


def at(name):
    return mk("attr", SELF, name)


def strip_cast(t):
    while isinstance(t, Term) and t.op == "cast":
        t = t.args[0]
    return t


class Run:
    """a TakeSteps strategy evaluated on symbolic arguments"""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.I, self.ret = run_strategy(ctx, cls)
        I = self.I
        self.where = ctx.where(cls, "__call__")
        self.objs = {}
        for e in I.events:
            if e.kind == "setattr" and e.name == "data":
                for k in range(3):
                    if T.contains(e.obj, mk("elem", BN, k)) if isinstance(e.obj, Term) else False:
                        self.objs[k] = e.obj
        self.final = {k: I.freeze(I.get_attr(o, "data", None)) for k, o in self.objs.items()}
        self.cursor = I.freeze(I.get_attr(SELF, "current_position", None))
        self.out = I.freeze(self.ret[2]) if isinstance(self.ret, tuple) and len(self.ret) == 3 else None
        self.key = I.freeze(self.ret[0]) if isinstance(self.ret, tuple) and len(self.ret) == 3 else None


def runs(ctx, rule):
    for cls in CLASSES:
        r = Run(ctx, cls)
        if len(r.objs) != 3 or r.out is None:
            ctx.und(f"{rule}[{cls}]", r.where, f"{len(r.objs)} of 3 buffers are written")
            continue
        yield r


def written(v, obj):
    """(rows, start, axis) of the one slice written into obj.data"""
    if isinstance(v, Term) and v.op == "dus" and v.args[0] is mk("attr", obj, "data"):
        return v.args[1], v.args[2], v.args[3]
    return None


def c08(ctx):
    for r in runs(ctx, "C08"):
        vals = [r.final[k] for k in range(3)] + [r.cursor, r.out]
        for cfg, vs in configurations(vals):
            lab = r.cls + "".join("" if not cfg else f" ({'' if b else 'not '}{T.show(c)})" for c, b in cfg)
            record(ctx, r, lab, vs)
    for cls in CLASSES:
        I = Interp(ctx.p)
        s, k = new_self(ctx.p.find_class(cls)), T.sym("new_position")
        I.call(I.get_attr(s, "set_current_position", None), [k], {}, None)
        ctx.absorb(I)
        ctx.same(f"C08.move[{cls}]", ctx.where(cls, "set_current_position"),
                 I.freeze(I.get_attr(s, "current_position", None)), k,
                 "set_current_position moves the recording position to the value given")


def record(ctx, r, lab, vs):
    w = r.where
    R = lambda s: f"C08.{s}[{lab}]"
    u = tainted(tuple(vs))
    if u is not None:
        ctx.und(R("record"), w, f"depends on an unmodelled construct: {u.args[0]}")
        return
    slots = []
    for k in range(3):
        s = written(vs[k], r.objs[k])
        if s is None:
            if vs[k] is mk("attr", r.objs[k], "data"):
                ctx.bad(R("write"), w, f"nothing is written to the {NAMES[k]} buffer", vs[k])
            else:
                ctx.und(R("write"), w, f"the {NAMES[k]} buffer is not updated by writing one slice into it: {txt(vs[k], 300)}")
            return
        slots.append(s)
    for k in range(3):
        ctx.same(R(f"start.{NAMES[k]}"), w, slots[k][1], at("current_position"),
                 f"the {NAMES[k]} rows are written at the recording position")
        ctx.same(R(f"axis.{NAMES[k]}"), w, slots[k][2], mk("attr", r.objs[k], "cursor_dim"),
                 f"the {NAMES[k]} rows are written along the buffer's own axis")
    c, j = T.fresh("c", 0), T.fresh("j", 0)
    rows = [T.elem(strip_cast(s[0]), c) for s in slots]
    n = T.sub(vs[3], at("current_position"))
    for k in range(3):
        m = T.length(strip_cast(rows[k]))
        if m is None:
            ctx.und(R(f"rows.{NAMES[k]}"), w, "number of rows written")
        else:
            ctx.same(R(f"rows.{NAMES[k]}"), w, m, n, f"the recording position advances by the number of "
                                                     f"{NAMES[k]} rows written")
    ctx.same(R("count"), w, n, T.floordiv(at("n_steps"), at("thinning")), "n_steps // thinning rows per call")
    cell = [strip_cast(T.elem(strip_cast(x), j)) for x in rows]
    calls = [u for u in T.walk(cell[0]) if u.op == "mcall" and u.args[1] == "kernel"]
    top = [u for u in calls if mk("elem", u, 0) in set(T.walk(cell[0]))
           and not any(T.contains(v, u) for v in calls if v is not u)]
    if len(top) != 1:
        ctx.und(R("same-step"), w, f"kernel call of the recorded row not found: {txt(cell[0], 300)}")
    else:
        K = top[0]
        for k in (1, 2):
            want = T.expand(cell[0], lambda x: mk("elem", K, k) if x is mk("elem", K, 0) else
                            (x if x.op in ("pre",) else None))
            ctx.same(R(f"same-step.{NAMES[k]}"), w, cell[k], want,
                     f"row j of the {NAMES[k]} buffer belongs to the same step as row j of the positions")
    for k in range(3):
        ctx.same(R(f"chains.{NAMES[k]}"), w, T.length(strip_cast(slots[k][0])), T.length(X0), "one entry per chain")
    ctx.same(R("hand-over"), w, T.elem(vs[4], c), T.elem(rows[0], T.sub(n, 1)),
             "the position handed to the next strategy is the last recorded row")


def c09(ctx):
    for r in runs(ctx, "C09"):
        w = r.where
        B = at("chain_batch_size")
        vals = {f"{NAMES[k]} buffer": r.final[k] for k in range(3)}
        vals.update({"recording position": r.cursor, "returned position": r.out, "returned key": r.key})
        for nm, v in vals.items():
            ctx.true(f"C09.batching[{r.cls}].{nm}", w, not (isinstance(v, Term) and T.contains(v, B)),
                     f"the {nm} does not depend on the chain batch size", v)
        c = T.fresh("c", 0)
        for k in range(3):
            s = written(r.final[k], r.objs[k])
            if s is None:
                ctx.und(f"C09.own-row[{r.cls}].{NAMES[k]}", w, "write not recognised")
                continue
            row = T.elem(strip_cast(s[0]), c)
            own_row(ctx, f"C09.own-row[{r.cls}].{NAMES[k]}", w, row, c, X0, NAMES[k])


def own_row(ctx, rule, w, row, c, src, what):
    """every use of the array src inside row is src[c] (or its length)"""
    foreign = []

    def go(x, memo):
        if isinstance(x, tuple):
            for y in x:
                go(y, memo)
            return
        if not isinstance(x, Term) or x in memo:
            return
        memo.add(x)
        if x.op in ("len", "rank", "shape"):
            return
        if x is src:
            foreign.append(x)
            return
        if x.op == "elem" and x.args[0] is src:
            if not T.same(x.args[1], c):
                foreign.append(x)
            return
        for a in x.args:
            go(a, memo)
    go(row, set())
    ctx.true(rule, w, not foreign, f"the {what} rows of a chain depend on that chain's own starting point only", row)


# ------------------------------------------------------------------ the target the kernel sees

def target_at(I, f, x, d):
    """value of the density handed to a kernel at x when the kernel passes it data d"""
    return I.freeze(I.call(f, [x, d], {}, None))


def c06_steps(ctx):
    for cls in CLASSES:
        I, _ = run_strategy(ctx, cls)
        steps_data(ctx, I, cls)


def steps_data(ctx, I, cls):
    w = ctx.where(cls, "sample")
    LPN = mk("elem", RES, at("logpdf_name"))
    n = 0
    for e in list(I.events):
        if e.kind != "app":
            continue
        if isinstance(e.fn, Term) and e.fn.op == "meth" and e.fn.args[1] == "kernel":
            n += 1
            x = T.fresh("x", 1)
            f = e.raw[3] if len(e.raw) > 3 else None
            d = e.raw[4] if len(e.raw) > 4 else None
            v = target_at(I, f, x, d)
            want = target_at(I, LPN, x, DATA)
            ctx.same(f"C06.target[{cls}]", f"{relsite(e.site)} ({cls}.sample)", v, want,
                     "the density the kernel evaluates is the target on the caller's data")
    if n == 0:
        ctx.und(f"C06.target[{cls}]", w, "no kernel call found")


# ------------------------------------------------------------------ the carried log-probability

def c04_steps(ctx):
    """kernel.kernel is always called with a log-probability that is the density of the position passed"""
    LPN = mk("elem", RES, at("logpdf_name"))
    for r in runs(ctx, "C04.steps"):
        w = ctx.where(r.cls, "sample")
        s = written(r.final[0], r.objs[0])
        if s is None:
            ctx.und(f"C04.carried[{r.cls}]", w, "write not recognised")
            continue
        c, j = T.fresh("c", 0), T.fresh("j", 0)
        cell = T.elem(T.elem(strip_cast(s[0]), c), j)
        calls = [u for u in T.walk(cell) if u.op == "mcall" and u.args[1] == "kernel"]
        top = [u for u in calls if not any(T.contains(v, u) for v in calls if v is not u)]
        if len(top) != 1:
            ctx.und(f"C04.carried[{r.cls}]", w, "kernel call not found")
            continue
        K = top[0]
        _, x, lp = K.args[2][:3]
        f = lambda y: target_at(r.I, LPN, y, DATA)
        if isinstance(x, Term) and x.op == "pre" and isinstance(lp, Term) and lp.op == "pre":
            ctx.same(f"C04.carried.first[{r.cls}]", w, mh.init_of(lp), f(mh.init_of(x)),
                     "the first log-probability is the density of the first position")
            ctx.same(f"C04.carried.position[{r.cls}]", w, mh.step_of(x), mk("elem", K, 0),
                     "each step starts from the position the previous one returned")
            ctx.same(f"C04.carried.next[{r.cls}]", w, mh.step_of(lp), mk("elem", K, 1),
                     "each step starts from the log-probability the previous one returned")
            ctx.same(f"C04.start[{r.cls}]", w, mh.init_of(x), T.elem(X0, c), "chain c starts at its own position")
        else:
            ctx.same(f"C04.carried.first[{r.cls}]", w, lp, f(x),
                     "the log-probability passed is the density of the position passed")
            ctx.same(f"C04.start[{r.cls}]", w, x, T.elem(X0, c), "chain c starts at its own position")
