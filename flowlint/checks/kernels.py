"""Obligations of the MCMC kernels (Metropolis-Hastings structure)."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import mh
from .scen import (KEY, POS, LP, F, DATA, lpdf, run_kernel, configurations, new_self, static_conds)
from .base import tainted, txt
from .keys import independent, Live

LPX = {LP: lpdf(POS)}


def coherent(t):
    """the incoming log_prob is the density of the incoming position"""
    return T.subst(t, LPX)


def result_of(ctx, cls, rule):
    """(pos, lp, acc) of cls.kernel, or None after recording why not"""
    I, r = run_kernel(ctx, cls)
    w = ctx.where(cls, "kernel")
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und(rule, w, f"kernel does not return a (position, log_prob, accepted) triple: {txt(r, 200)}")
        return None
    return r


def accept_of(ctx, rule, w, acc):
    u = tainted(acc)
    if u is not None:
        ctx.und(rule, w, f"acceptance decision depends on an unmodelled construct: {u.args[0]}")
        return None
    a = mh.split_accept(mh.real(acc))
    if isinstance(a, mh.Accept):
        return a
    if "not a comparison" in a or a.startswith("the acceptance decision is not"):
        ctx.und(rule, w, a)
    else:
        ctx.bad(rule, w, a, acc)
    return None


def gaussian_logq(y, m, s):
    """log density of y under N(m, s^2) up to a constant; s is None-free"""
    d = T.div(T.sub(y, m), s)
    q = T.mul(-0.5, T.sum_(T.mul(d, d)))
    return q


ONE_SIDED = ("exponential", "gamma", "chisquare", "beta", "poisson", "pareto", "rayleigh", "lognormal", "weibull_min")


def lopsided(z):
    """a draw whose law is not symmetric around zero"""
    if z.args[0] == "uniform":
        lo, hi = 0, 1
        rest = z.args[3:]
        if rest and not str(rest[0]).startswith("@"):
            b = rest[0] if isinstance(rest[0], tuple) else rest
            if len(b) < 2:
                return False
            lo, hi = b[0], b[1]
        s = T.const_of(T.add(lo, hi))
        return s is not None and s != 0
    return z.args[0] in ONE_SIDED


def local_kernel(ctx, cls, rule):
    """X' = m(x) + s z with z ~ N(0, 1), accepted with log-ratio
       log p(X') - log p(x) + log q(x | X') - log q(X' | x)"""
    w = ctx.where(cls, "kernel")
    r = result_of(ctx, cls, rule)
    if r is None:
        return
    pos, lp, acc = (coherent(v) if isinstance(v, Term) else v for v in r)
    a = accept_of(ctx, rule + ".decision", w, acc)
    if a is None:
        return
    hi, lo = mh.branches(pos, acc)
    ctx.same(rule + ".rejected", w, lo, POS, "a rejected proposal leaves the chain where it was")
    if tainted(hi) is not None:
        ctx.und(rule + ".proposal", w, f"proposal depends on an unmodelled construct: {tainted(hi).args[0]}")
        return
    if T.contains(hi, acc) or hi is POS:
        ctx.bad(rule + ".proposal", w, "an accepted step does not move to the proposal", hi)
        return
    zs = {u for u in mh.draws(hi)}
    lop = [u for u in zs if lopsided(u)]
    if lop and len(zs) == 1:
        ctx.bad(rule + ".proposal", w, "the proposal's noise is not symmetric around zero and the acceptance ratio has no "
                                       "proposal densities for it", lop[0])
        return
    if len(zs) != 1 or next(iter(zs)).args[0] != "normal":
        ctx.und(rule + ".proposal", w, f"proposal is not driven by one standard normal draw: {txt(hi, 300)}")
        return
    z = next(iter(zs))
    dims = T.dims(z)
    ctx.true(rule + ".noise-shape", w, dims is not None and len(dims) == 1 and
             T.same(dims[0], T.length(POS)), "one independent normal draw per dimension", z)
    m = T.subst(hi, {z: 0})
    s = T.subst(T.sub(hi, m), {z: 1})
    if not T.same(hi, T.add(m, T.mul(s, z))):
        ctx.und(rule + ".proposal", w, f"proposal is not affine in its normal draw: {txt(hi, 300)}")
        return
    if T.const_of(s) == 0:
        ctx.bad(rule + ".proposal", w, "the proposal does not depend on its random draw", hi)
        return
    independent(ctx, rule + ".keys", w, [("the proposal noise", z.args[1]), ("the accept draw", a.key)])
    ctx.ok(rule + ".proposal", w, f"proposal = m(x) + s z, m = {txt(m, 120)}, s = {txt(s, 60)}")
    back = {POS: hi}
    m2, s2 = T.subst(m, back), T.subst(s, back)
    want = T.sub(lpdf(hi), lpdf(POS))
    want = T.add(want, gaussian_logq(POS, m2, s2))
    want = T.sub(want, gaussian_logq(hi, m, s))
    if isinstance(s, Term) and T.contains(s, POS):
        n = T.length(POS)
        ls = T.sub(T.log(s), T.log(s2))
        want = T.add(want, T.mul(n, ls) if (T.rank(s) or 0) == 0 else T.sum_(ls))
    ctx.same(rule + ".ratio", w, a.ratio, want,
             "log acceptance ratio = log p(X') - log p(x) + log q(x|X') - log q(X'|x)")


def c01_random_walk(ctx):
    local_kernel(ctx, "GaussianRandomWalk", "C01.random-walk")


def c01_langevin(ctx):
    local_kernel(ctx, "MALA", "C01.langevin")


# ------------------------------------------------------------------ independence proposals

def carried(u, acc, X, models, i):
    """the function f with u = f(current position) at every iteration, given that the
    position moves to X exactly when acc holds; None if there is none"""
    u0, u1 = coherent(mh.init_of(u)), coherent(mh.step_of(u))
    for f in [lpdf] + [lambda x, m=m: mk("mcall", m, "log_prob", (x,)) for m in models]:
        if T.same(u0, f(POS)) and T.same(T.assume(u1, acc, True), f(X)) and T.assume(u1, acc, False) is u:
            return f
    return None


class NFStep:
    pass


def nf_steps(ctx, rule):
    """one NFStep per static configuration of NFProposal.kernel"""
    r = result_of(ctx, "NFProposal", rule)
    w = ctx.where("NFProposal", "kernel")
    if r is None:
        return
    for cfg, vals in configurations(r):
        s = NFStep()
        s.name = " & ".join(("" if b else "not ") + T.show(c) for c, b in cfg) or "always"
        s.label = "batched" if cfg and cfg[0][1] else ("single batch" if cfg else "")
        s.where = w
        s.i = i = T.fresh("i", 0)
        s.pos, s.lp, s.acc = (coherent(T.elem(v, i)) for v in vals)
        s.raw = vals
        s.accept = accept_of(ctx, f"{rule}.decision[{s.label}]", w, s.acc)
        if s.accept is None:
            continue
        s.X, s.prev = mh.branches(s.pos, s.acc)
        s.models = {m.args[0] for m in T.walk((s.pos, s.acc)) if m.op == "mcall"}
        s.pre = [u for u in T.walk(s.accept.ratio) if u.op == "pre" and not carries_key(u)]
        s.pre = [u for u in s.pre if not any(v is not u and T.contains(v, u) for v in s.pre)]
        yield s


def carries_key(u):
    """the carried value is a random key (not a density or a position)"""
    x = mh.init_of(u)
    while isinstance(x, Term) and x.op == "elem":
        x = x.args[0]
    return isinstance(x, Term) and (x.op in ("keysplit", "foldin") or x is KEY)


def fresh_per_step(ctx, R, w, s):
    """the draws of a step are not shared with another step"""
    L = Live([s.raw])
    shared = [d for d, v, r in L.shared if r is False]
    if shared:
        ctx.bad(R, w, f"{shared[0].name()}: several steps share one draw", shared[0].term)
    elif L.shared:
        ctx.und(R, w, f"key of {L.shared[0][0].name()}")
    else:
        ctx.ok(R, w, f"{len(L.draws)} draws, each with a key of its own at every step")


def c03(ctx):
    n = 0
    for s in nf_steps(ctx, "C03"):
        n += 1
        R = lambda k: f"C03.{k}[{s.label}]"
        w = s.where
        u = tainted((s.pos, s.acc))
        if u is not None:
            ctx.und(R("step"), w, f"depends on an unmodelled construct: {u.args[0]}")
            continue
        # the rejected branch is the carried position
        p = s.prev
        if not (isinstance(p, Term) and p.op == "pre"):
            ctx.bad(R("rejected"), w, "a rejected proposal does not keep the carried position", s.pos)
            continue
        if not (T.same(mh.init_of(p), POS) and T.same(coherent(mh.step_of(p)), s.pos)):
            ctx.bad(R("rejected"), w, "the carried position is not the last recorded one",
                    (mh.init_of(p), mh.step_of(p)), (POS, s.pos))
            continue
        ctx.ok(R("rejected"), w, "a rejected proposal keeps the position recorded before it")
        # the proposal is a row drawn from the model
        src = [m for m in T.walk(s.X) if m.op == "mcall" and m.args[1] == "sample"]
        good = isinstance(s.X, Term) and s.X.op == "elem" and len(src) == 1 and s.X.args[0] is src[0]
        if not good:
            ctx.bad(R("proposal"), w, "the proposal is not a row of the model's samples", s.X)
            continue
        model = src[0].args[0]
        independent(ctx, R("keys"), w, [("the proposals", src[0].args[2][0]), ("the accept draw", s.accept.key)])
        fresh_per_step(ctx, R("fresh"), w, s)
        ctx.true(R("proposal"), w, T.contains(s.X, s.i), "every step proposes its own row of the model's samples",
                 s.X)
        ix = s.X.args[1]
        cnt = src[0].args[2][1]
        inside = T.same(ix, s.i) or T.same(ix, T.sub(s.i, T.mul(cnt, T.floordiv(s.i, cnt))))
        if not inside:
            ctx.und(R("row"), w, f"row index {txt(ix, 200)} of {txt(cnt, 80)} samples")
        elif not T.same(ix, s.i) and not T.contains(src[0], s.i):
            ctx.bad(R("row"), w, "every batch proposes the same points", src[0])
        else:
            ctx.ok(R("row"), w, "row i of the batches in order, no row repeated")
        # carried densities
        mp, bad = {}, False
        for v in s.pre:
            if v is p:
                continue
            f = carried(v, s.acc, s.X, [model], s.i)
            if f is None:
                bad = True
                ctx.bad(R("carried"), w, "a density carried between steps is not the density of the carried "
                                         "position", (mh.init_of(v), mh.step_of(v)))
            else:
                mp[v] = f(p)
        if bad:
            continue
        ctx.ok(R("carried"), w, f"{len(mp)} carried densities follow the carried position")
        ratio = T.subst(s.accept.ratio, mp)
        q = lambda x: mk("mcall", model, "log_prob", (x,))
        want = T.add(T.sub(lpdf(s.X), lpdf(p)), T.sub(q(p), q(s.X)))
        ctx.same(R("ratio"), w, ratio, want, "log-ratio = log p(X') - log p(x) - log q(X') + log q(x), q the "
                                             "density of the model that produced X'")
        # as many steps as requested
        lens = [T.length(v) for v in s.raw]
        for nm, v in zip(("positions", "log_probs", "accepted"), lens):
            if v is None:
                ctx.und(R("length"), w, f"length of {nm}")
            else:
                ctx.same(R("length"), w, v, mk("elem", DATA, "n_steps"), f"{nm}: n_steps rows")
    return n


# ------------------------------------------------------------------ coherence of the returned triple

LOCAL = ("GaussianRandomWalk", "MALA", "HMC")


def c04_kernels(ctx):
    for cls in LOCAL:
        w = ctx.where(cls, "kernel")
        R = f"C04.kernel[{cls}]"
        r = result_of(ctx, cls, R)
        if r is None:
            continue
        pos, lp, acc = (coherent(v) for v in r)
        hi, lo = mh.branches(pos, acc)
        lhi, llo = mh.branches(lp, acc)
        ctx.same(R + ".accepted", w, lhi, lpdf(hi), "log-prob reported for an accepted step is the density there")
        ctx.same(R + ".rejected", w, llo, lpdf(lo), "log-prob reported for a rejected step is the density there")
        ctx.same(R + ".stay", w, lo, POS, "flag false: the position is unchanged")
        ctx.true(R + ".move", w, not T.same(hi, POS), "flag true: the position is the proposal", hi)


def c04_nf(ctx):
    for s in nf_steps(ctx, "C04.kernel[NFProposal]"):
        w, R = s.where, f"C04.kernel[NFProposal {s.label}]"
        lhi, llo = mh.branches(s.lp, s.acc)
        ctx.same(R + ".accepted", w, lhi, lpdf(s.X), "log-prob of an accepted step is the density there")
        if isinstance(llo, Term) and llo.op == "pre":
            f = carried(llo, s.acc, s.X, s.models, s.i)
            ctx.true(R + ".rejected", w, f is lpdf, "log-prob of a rejected step is the density of the kept "
                                                    "position", mh.step_of(llo))
        else:
            ctx.same(R + ".rejected", w, llo, lpdf(s.prev), "log-prob of a rejected step is the density of the "
                                                            "kept position")
        ctx.true(R + ".stay", w, isinstance(s.prev, Term) and s.prev.op == "pre", "flag false: previous position",
                 s.prev)
        ctx.true(R + ".move", w, s.X is not s.prev, "flag true: the proposal", s.X)


def c05_kernels(ctx):
    for cls in LOCAL:
        w = ctx.where(cls, "kernel")
        R = f"C05.decision[{cls}]"
        r = result_of(ctx, cls, R)
        if r is None:
            continue
        acc = coherent(r[2])
        hi, _ = mh.branches(coherent(r[0]), acc)
        if undefined(ctx, R, w, acc, lpdf(hi)):
            continue
        a = accept_of(ctx, R, w, acc)
        if a is not None:
            polarity(ctx, R, w, a, r[2])


def undefined(ctx, R, w, acc, lp):
    """decide a test that treats undefined values explicitly, by what it yields on them"""
    if not mh.guarded(acc) or tainted(acc) is not None:
        return False
    for v, what in (("nan", "undefined (NaN)"), ("-inf", "minus infinity")):
        x = mh.special(acc, {lp: v})
        R_ = R + (".nan" if v == "nan" else ".strict")
        d = f"a proposal whose log-density is {what} is rejected"
        if x is False:
            ctx.ok(R_, w, d)
        elif x is None:
            ctx.und(R_, w, d)
        else:
            ctx.bad(R_, w, d, acc)
    return True


def polarity(ctx, R, w, a, acc):
    ctx.true(R + ".nan", w, a.nan_safe, "a NaN ratio makes the comparison false and the proposal is rejected", acc)
    ctx.true(R + ".strict", w, a.strict, "a ratio of -inf is never accepted, not even when the draw is 0", acc)


def c05_nf(ctx):
    for s in nf_steps(ctx, "C05.decision[NFProposal]"):
        R = f"C05.decision[NFProposal {s.label}]"
        if not undefined(ctx, R, s.where, s.acc, lpdf(s.X)):
            polarity(ctx, R, s.where, s.accept, s.acc)


def c06_kernels(ctx):
    """inside a kernel every evaluation and gradient of the density uses the data the kernel was given"""
    for cls in LOCAL + ("NFProposal",):
        I, r = run_kernel(ctx, cls)
        w = ctx.where(cls, "kernel")
        u = tainted(r) if isinstance(r, tuple) else None
        n = 0
        seen = set()
        for a in T.walk(r):
            if a.op == "app" and a.args[0] is F and a not in seen:
                seen.add(a)
                n += 1
                got = a.args[1][1] if len(a.args[1]) > 1 else None
                if isinstance(got, Term) and T.same(got, DATA):
                    continue
                ctx.true(f"C06.kernel[{cls}]", w, False, "an evaluation of the density does not receive the caller's data", got)
        if n:
            ctx.ok(f"C06.kernel[{cls}]", w, f"{n} evaluations of the density use the data argument")
        else:
            ctx.und(f"C06.kernel[{cls}]", w, "no evaluation of the density found")
