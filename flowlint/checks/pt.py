"""Parallel tempering: stepping within rungs, exchange between rungs, the temperature ladder."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import TYPES
from . import mh
from .scen import KEY, DATA, RES, X0, new_self, run_strategy, configurations
from .base import tainted, txt, relsite

CLS = "ParallelTempering"
SELF = T.sym("self")


def at(name):
    return mk("attr", SELF, name)


def strip(t):
    while isinstance(t, Term) and t.op == "cast":
        t = t.args[0]
    return t


class Run:
    """one call of the strategy on symbolic arguments, taken apart"""

    def __init__(self, ctx, rule):
        self.ok = False
        lpdf = mk("elem", RES, at("tempered_logpdf_name"))
        for n in ("log_pdf", "log_prior"):
            T.RANK[("ret", mk("attr", lpdf, n))] = 0                   # one number per point
        T.RANK[mk("attr", mk("elem", RES, mk("elem", at("tempered_buffer_names"), 1)), "data")] = 1
        self.I, ret = run_strategy(ctx, CLS)
        I = self.I
        self.w = ctx.where(CLS, "__call__")
        if not isinstance(ret, tuple) or len(ret) != 3:
            ctx.und(rule, self.w, "the strategy does not return a triple")
            return
        self.out = I.freeze(ret[2])
        BN = at("tempered_buffer_names")
        self.rep = mk("elem", RES, mk("elem", BN, 0))        # replicas of the hotter rungs
        self.temp = mk("elem", RES, mk("elem", BN, 1))
        self.lpdf = mk("elem", RES, at("tempered_logpdf_name"))
        self.state = mk("elem", RES, at("state_name"))
        TYPES[self.lpdf] = (ctx.p.find_class("TemperedPDF"), True)
        self.temps = mk("attr", self.temp, "data")
        self.rep0 = mk("attr", self.rep, "data")
        self.rep1 = I.freeze(I.get_attr(self.rep, "data", None))
        self.temps1 = I.freeze(I.get_attr(self.temp, "data", None))
        u = tainted((self.out, self.rep1))
        if u is not None:
            ctx.und(rule, self.w, f"depends on an unmodelled construct: {u.args[0]}")
            return
        self.c = T.fresh("c", 0)
        cold = T.elem(self.out, self.c)
        if not (isinstance(cold, Term) and cold.op == "elem" and isinstance(cold.args[0], Term)
                and cold.args[0].op == "fin"):
            if rule.startswith("C19") and not mh.draws(self.out) and not mh.draws(self.rep1):
                ctx.bad(rule, self.w, "no exchange decision reaches the positions of any rung", cold)
                return
            ctx.und(rule, self.w, f"exchange loop not found in the returned position: {txt(cold, 200)}")
            return
        self.cold = cold
        self.P = cold.args[0]                # positions of all rungs of chain c after the exchange
        self.lp, self.k = self.P.args
        self.ok = True

    # the density of one rung, from the class's own definition, and its two parts
    def base(self, x):
        return self.I.freeze(self.I.call(self.lpdf, [x, DATA], {}, None))

    def tempered(self, t, x):
        f = self.I.get_attr(self.lpdf, "tempered_log_pdf", None)
        return self.I.freeze(self.I.call(f, [t, x, DATA], {}, None))


def run(ctx, rule):
    r = Run(ctx, rule)
    return r if r.ok else None


# ------------------------------------------------------------------ C19 exchange

class Exchange:
    def __init__(self, ctx, r, rule):
        self.ok = False
        w = r.w
        phis, inits, nexts, ys, idx, n, rev = r.lp.args
        self.phis, self.inits, self.nexts, self.idx, self.n = phis, inits, nexts, idx, n
        self.P, self.P0, self.P1 = phis[r.k], inits[r.k], nexts[r.k]
        self.j = T.fresh("j", 0)
        here = T.elem(self.P1, idx)
        conds = [u.args[0] for u in T.walk(here) if u.op == "sel"]
        conds = [c for c in conds if mh.draws(c)]
        if not conds:
            # no exchange touches this rung: the decision taken in the step, wherever it acts
            conds = [c for c in (u.args[0] for u in T.walk(self.P1) if u.op == "sel") if mh.draws(c)]
        if len(set(conds)) != 1:
            ctx.und(rule, w, f"{len(set(conds))} exchange decisions in the update of a rung: {txt(here, 300)}")
            return
        self.acc = conds[0]
        self.ok = True

    def cell(self, t, j, yes):
        t = T.assume(t, self.acc, yes)
        return T.elem(t, j)

    def elsewhere(self, t, j, yes):
        """t[j] for a rung j outside {idx, idx+1}"""
        t = T.assume(t, self.acc, yes)
        bad = []

        def go(u):
            if not isinstance(u, Term):
                return u
            if u.op == "dus" and u.args[3] == 0:
                m = T.const_of(T.length(u.args[1]))
                d = T.const_of(T.sub(u.args[2], self.idx))
                if m is not None and d is not None and 0 <= d and d + m <= 2:
                    return go(u.args[0])
            if u.op == "setax":
                d = T.const_of(T.sub(u.args[1], self.idx))
                if d in (0, 1):
                    return go(u.args[0])
            return u
        b = T.elem(go(t), j)

        def entry(u):
            if u.op == "elem" and u.args[1] is j and isinstance(u.args[0], Term):
                v = go(u.args[0])
                if v is not u.args[0]:
                    return T.elem(v, j)
            return None
        return T.expand(b, entry)


def exchange(ctx, rule):
    r = run(ctx, rule)
    if r is None:
        return None, None
    e = Exchange(ctx, r, rule)
    return (r, e) if e.ok else (r, None)


def c19(ctx):
    r, e = exchange(ctx, "C19.exchange")
    if e is None:
        return
    w, i = r.w, e.idx
    i1 = T.add(i, 1)
    for yes in (True, False):
        lab = "accepted" if yes else "rejected"
        a, b = e.cell(e.P1, i, yes), e.cell(e.P1, i1, yes)
        want = (T.elem(e.P, i1), T.elem(e.P, i)) if yes else (T.elem(e.P, i), T.elem(e.P, i1))
        ctx.same(f"C19.swap[{lab}].lower", w, a, want[0], "position of rung i after the exchange of (i, i+1)")
        ctx.same(f"C19.swap[{lab}].upper", w, b, want[1], "position of rung i+1 after the exchange of (i, i+1)")
        ctx.same(f"C19.swap[{lab}].others", w, e.elsewhere(e.P1, e.j, yes), T.elem(e.P, e.j),
                 "every other rung keeps its position")
    a = mh.split_accept(e.acc)
    if not isinstance(a, mh.Accept):
        (ctx.und if "not a comparison" in a else ctx.bad)("C19.decision", w, a)
        return
    # carried quantities the ratio depends on: densities of the positions, permuted with them
    ratio = a.ratio
    for k, p in enumerate(e.phis):
        if p is e.P or not T.contains(ratio, p):
            continue
        init = T.elem(e.inits[k], e.j)
        if not T.same(init, r.base(T.elem(e.P0, e.j))):
            ctx.bad("C19.density.start", w, "the density compared in the first exchange is not the target at the "
                                            "rung's position", init, r.base(T.elem(e.P0, e.j)))
            return
        good, pairs = True, []
        for yes in (True, False):
            for jj, src in ((i, i1 if yes else i), (i1, i if yes else i1)):
                pairs.append((e.cell(e.nexts[k], jj, yes), T.elem(p, src)))
            pairs.append((e.elsewhere(e.nexts[k], e.j, yes), T.elem(p, e.j)))
        good = all(T.same(a_, b_) for a_, b_ in pairs)
        ctx.true("C19.density.carried", w, good, "the densities are exchanged together with the positions",
                 e.nexts[k])
        if not good:
            return
        ratio = T.expand(ratio, lambda u: r.base(T.elem(e.P, u.args[1]))
                         if u.op == "elem" and u.args[0] is p else None)
    t = lambda j: T.elem(r.temps, j)
    x = lambda j: T.elem(e.P, j)
    want = T.sub(T.add(r.tempered(t(i), x(i1)), r.tempered(t(i1), x(i))),
                 T.add(r.tempered(t(i), x(i)), r.tempered(t(i1), x(i1))))
    ctx.same("C19.ratio", w, ratio, want, "log-ratio of an exchange = tempered density after / before, both rungs")
    if T.length(e.P0) is None:
        ctx.und("C19.pairs", w, "number of rungs")
    else:
        ctx.same("C19.pairs", w, e.n, T.sub(T.length(e.P0), 1), "one exchange for every adjacent pair (i, i+1)")


def c05_pt(ctx):
    r, e = exchange(ctx, "C05.decision[exchange]")
    if e is None:
        return
    a = mh.split_accept(e.acc)
    if not isinstance(a, mh.Accept):
        (ctx.und if "not a comparison" in a else ctx.bad)("C05.decision[exchange]", r.w, a)
        return
    ctx.true("C05.decision[exchange].nan", r.w, a.nan_safe, "a NaN ratio makes the comparison false: no exchange",
             e.acc)


# ------------------------------------------------------------------ C28 stepping within the rungs

def rung(r):
    """(index t, the stepping loop's fin term of rung t of chain c)"""
    phis, inits = r.lp.args[0], r.lp.args[1]
    t = T.fresh("t", 0)
    return t, T.elem(inits[r.k], t)


def c28(ctx):
    r = run(ctx, "C28.rungs")
    if r is None:
        return
    w = ctx.where(CLS, "__call__")
    t, v = rung(r)
    if isinstance(v, Term) and v.op == "elem" and isinstance(v.args[0], Term) and v.args[0].op == "mcall" \
            and v.args[0].args[1] == "kernel" and isinstance(v.args[0].args[2][1], Term):
        x = v.args[0].args[2][1]
        done = T.add(x.args[2], 1) if x.op == "pre" else 1
        ctx.same("C28.count", w, done, at("n_steps"), "every rung takes the configured number of steps")
        return
    if not (isinstance(v, Term) and v.op == "fin"):
        ctx.und("C28.steps", w, f"stepping loop of a rung not found: {txt(v, 300)}")
        return
    lp, k = v.args
    phis, inits, nexts, ys, idx, n, rev = lp.args
    ctx.same("C28.count", w, n, at("n_steps"), "every rung takes the configured number of steps")
    start = T.elem(T.concat((mk("arr", (T.elem(X0, r.c),)), T.elem(r.rep0, r.c))), t)
    ctx.same("C28.start", w, inits[k], start,
             "rung 0 starts at the chain's current position, rung t at the stored replica t-1 of that chain")
    K = nexts[k].args[0] if isinstance(nexts[k], Term) and nexts[k].op == "elem" else None
    if K is None or K.op != "mcall" or K.args[1] != "kernel":
        ctx.und("C28.kernel", w, f"the update of a rung is not one kernel step: {txt(nexts[k], 200)}")
        return
    ctx.same("C28.position", w, nexts[k], mk("elem", K, 0), "the chain moves to the position the kernel returns")
    key, x, lp0, f, d = K.args[2][:5]
    ctx.same("C28.from", w, x, phis[k], "each step starts from the position the previous one returned")
    y = T.fresh("x", 1)
    T_t = T.elem(r.temps, t)
    ctx.same("C28.target", w, r.I.freeze(r.I.call(f, [y, d], {}, None)), r.tempered(T_t, y),
             "rung t steps on the density at its own temperature and the caller's data")
    prior = r.I.freeze(r.I.call(r.I.get_attr(r.lpdf, "log_prior", None), [y, DATA], {}, None))
    ctx.same("C28.density", w, r.tempered(T_t, y), T.add(T.div(r.base(y), T_t), prior),
             "tempered density = log-density over temperature, plus log-prior")
    if lp0 in phis:
        q = phis.index(lp0)
        ctx.same("C28.logprob.start", w, inits[q], r.tempered(T_t, inits[k]),
                 "the first log-probability is the tempered density of the first position")
        ctx.same("C28.logprob.next", w, nexts[q], mk("elem", K, 1),
                 "the log-probability carried is the one the kernel returned")
    else:
        ctx.same("C28.logprob", w, lp0, r.tempered(T_t, x), "log-probability of the position the step starts from")
    ctx.same("C28.kernel", w, K.args[0], mk("elem", RES, at("kernel_name")), "the configured kernel is used")


# ------------------------------------------------------------------ C20 ladder and replicas

def nonneg(p, idx):
    """polynomial in loop indices and lengths with non-negative coefficients"""
    return all(c >= 0 and all(k > 0 and (a in idx or a.op in ("len", "bv")) for a, k in m)
               for m, c in T.to_poly(p).items())


def positive(p, idx):
    d = T.to_poly(p)
    return nonneg(p, idx) and d.get((), 0) > 0


def untouched(t, j, idx, n, last):
    """t[j] when t is built by writes t.at[k].set(.) with k provably different from j"""
    while isinstance(t, Term):
        if t.op == "setax":
            k = t.args[1]
            if last is None:
                other = positive(T.sub(k, j), idx)
            else:
                # k <= k with idx = n - 1 < last
                kmax = T.subst(k, {i: T.sub(n, 1) for i in idx}) if isinstance(k, Term) else k
                other = positive(T.sub(last, kmax), idx)
            if not other:
                return None
            t = t.args[0]
            continue
        return t
    return None


def c20(ctx):
    ctx.opaque_ops = ("cumsum",)
    r = run(ctx, "C20.ladder")
    if r is None:
        return
    w = r.w
    # replicas
    rows = r.rep1
    if isinstance(rows, Term) and rows.op == "sel":
        ctx.bad("C20.replicas.persist", w, "the replicas are stored only under a condition", rows.args[0])
    elif isinstance(rows, Term) and rows.op == "dus" and rows.args[0] is r.rep0:
        q = T.fresh("q", 0)
        cell = T.elem(T.elem(strip(rows.args[1]), r.c), q)
        ctx.same("C20.replicas.rows", w, cell, T.elem(r.P, T.add(q, 1)),
                 "row q of the stored replicas is rung q+1 of the same chain after the exchange")
        ctx.same("C20.replicas.start", w, rows.args[2], 0, "the stored replicas are overwritten from their beginning")
        ctx.ok("C20.replicas.persist", w, "the replicas are stored unconditionally")
    else:
        ctx.true("C20.replicas.persist", w, rows is not r.rep0, "the replicas are stored for the next call", rows)
        if rows is not r.rep0:
            ctx.und("C20.replicas.rows", w, f"how the replicas are stored: {txt(rows, 200)}")
    ctx.same("C20.cold", w, r.cold, T.elem(r.P, 0), "the position handed on is that of the coldest rung")
    # temperatures
    flag = mk("elem", mk("attr", r.state, "data"), "training")
    frozen = T.assume(r.temps1, flag, False)
    ctx.same("C20.ladder.production", w, frozen, r.temps, "temperatures do not change outside the training phase")
    new = T.assume(r.temps1, flag, True)
    if isinstance(new, Term) and new.op == "dus" and new.args[0] is r.temps:
        ctx.same("C20.ladder.write", w, new.args[2], 0, "the ladder is overwritten from its beginning")
        new = strip(new.args[1])
    elif new is r.temps:
        ctx.ok("C20.ladder.cold", w, "the ladder never changes")
        return
    else:
        ctx.und("C20.ladder.cold", w, f"how the ladder is stored: {txt(new, 200)}")
        return
    if tainted(new) is not None:
        ctx.und("C20.ladder.cold", w, f"adapted ladder depends on an unmodelled construct: {tainted(new).args[0]}")
        return
    N = T.length(r.temps)
    # the temperatures and the rungs of a chain are mapped over together: there are as many of one as of the other
    new = T.expand(new, lambda u: N if u.op == "len" and isinstance(u.args[0], Term) and u.args[0].op == "concat"
                   and T.contains(u.args[0], r.rep0) else None)
    ladder(ctx, w, new, r.temps, N)


def ladder(ctx, w, new, old, N):
    if new.op == "fin":
        lp, k = new.args
        phis, inits, nexts, ys, idx, n, rev = lp.args
        ctx.same("C20.ladder.base", w, inits[k], old, "the adapted ladder starts as a copy of the current one")
        lo = untouched(nexts[k], Fr0, [idx], n, None)
        ctx.true("C20.ladder.cold", w, lo is phis[k], "adaptation never writes the coldest rung", nexts[k])
        hi = untouched(nexts[k], None, [idx], n, T.sub(N, 1))
        ctx.true("C20.ladder.hot", w, hi is phis[k], "adaptation never writes the hottest rung", nexts[k])
        if isinstance(nexts[k], Term) and nexts[k].op == "setax" and nexts[k].args[0] is phis[k]:
            gaps(ctx, w, phis[k], nexts[k].args[1], nexts[k].args[2], old)
        return
    # closed forms: first and last entries
    ctx.same("C20.ladder.cold", w, T.elem(new, 0), T.elem(old, 0), "adaptation never changes the coldest rung")
    last = T.elem(new, T.sub(N, 1))
    if T.same(last, T.elem(old, T.sub(N, 1))) or T.same(T.elem(new, -1), T.elem(old, -1)):
        ctx.ok("C20.ladder.hot", w, "adaptation never changes the hottest rung")
    else:
        ctx.und("C20.ladder.hot", w, f"last rung of the adapted ladder: {txt(last, 200)}")


def gaps(ctx, w, new, k, v, old):
    """the rung written is the one below it plus the old gap times a positive factor"""
    o, o1 = T.elem(old, k), T.elem(old, T.sub(k, 1))
    gain = T.sub(v, T.elem(new, T.sub(k, 1)))
    f = {}
    for m, c in T.to_poly(gain).items():
        if (o, Fraction(1)) in m:
            f[tuple(x for x in m if x[0] is not o)] = c
    factor = T.add(*[T.mul(c, *[T.power(a, e) for a, e in m]) for m, c in f.items()]) if f else 0
    if not f or not T.same(gain, T.mul(factor, T.sub(o, o1))):
        ctx.und("C20.ladder.order", w, f"how an adapted rung follows the one below it: {txt(v, 300)}")
        return
    plus = all(c > 0 and all(a.op in ("exp", "len") or e % 2 == 0 for a, e in m) for m, c in f.items())
    atoms = [a for m in f for a, _ in m]
    if not plus and any(a.op not in ("exp", "len", "sum") and not (a.op == "elem" and a.args[0].op == "sum") for a in atoms):
        ctx.und("C20.ladder.order", w, f"sign of the factor a gap is multiplied by: {txt(factor, 300)}")
        return
    ctx.true("C20.ladder.order", w, plus, "an adapted rung is the one below it plus its old gap times a positive "
                                          "factor: rungs keep their order", factor)


from fractions import Fraction
Fr0 = Fraction(0)


# ------------------------------------------------------------------ C06 data

def c06_pt(ctx):
    r = run(ctx, "C06.tempering")
    if r is None:
        return
    n = 0
    for e in r.I.events:
        if e.kind != "app":
            continue
        fn = e.fn
        if isinstance(fn, Term) and fn.op == "attr" and fn.args[0] is r.lpdf and len(e.args) > 1:
            n += 1
            ctx.same(f"C06.tempering[{fn.args[1]}]", f"{relsite(e.site)} ({e.func})", e.args[1], DATA,
                     "the density is evaluated on the caller's data")
        if isinstance(fn, Term) and fn.op == "meth" and fn.args[1] == "kernel" and len(e.raw) > 4:
            n += 1
            x = T.fresh("x", 1)
            f, d = e.raw[3], e.raw[4]
            v = r.I.freeze(r.I.call(f, [x, d], {}, None))
            apps = [u for u in T.walk(v) if u.op == "app" and isinstance(u.args[0], Term) and
                    u.args[0].op == "attr" and u.args[0].args[0] is r.lpdf]
            ctx.true("C06.tempering[kernel]", f"{relsite(e.site)} ({e.func})",
                     bool(apps) and all(T.same(u.args[1][1], DATA) for u in apps),
                     "the density handed to the kernel is evaluated on the caller's data", v)
    if not n:
        ctx.und("C06.tempering", r.w, "no evaluation of the tempered density found")


# ------------------------------------------------------------------ C09 chains

def c09_pt(ctx):
    from .steps import own_row
    r = run(ctx, "C09.tempering")
    if r is None:
        return
    w = r.w
    rows = r.rep1
    if isinstance(rows, Term) and rows.op == "dus":
        rows = strip(rows.args[1])
    for what, v in (("position", r.cold), ("replica", T.elem(rows, r.c))):
        own_row(ctx, f"C09.own-row[{CLS}].{what}.start", w, v, r.c, X0, what)
        own_row(ctx, f"C09.own-row[{CLS}].{what}.stored", w, v, r.c, r.rep0, what)
