"""Optimisation strategies (AdamOptimization): gradient, projection, start, outputs."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import scen, mh
from .scen import KEY, RES, X0, DATA
from .base import tainted, txt, relsite

CLS = "AdamOptimization"
SELF = T.sym("self")


def at(n):
    return mk("attr", SELF, n)


def strip(t):
    while isinstance(t, Term) and t.op == "cast":
        t = t.args[0]
    return t


def call(ctx, name, args):
    C = ctx.p.find_class(CLS)
    I = Interp(ctx.p)
    T.RANK[X0] = 2
    T.RANK[at("bounds")] = 2
    r = I.call(I.get_attr(scen.new_self(C), name, None), list(args), {}, None)
    ctx.absorb(I)
    if isinstance(r, Term) and r.op in ("tup", "lst"):
        r = r.args[0]
    return I, (tuple(I.freeze(v) for v in r) if isinstance(r, tuple) else r)


def logp(x):
    t = mk("app", at("logpdf"), (x, DATA))
    T.RANK[t] = 0
    return t


def as_clip(t, inside):
    """min(hi, max(lo, u)) and max(lo, min(hi, u)) as the projection of u: the one argument that carries parameters"""
    def split(m):
        dep = [strip(a) for a in m.args[0] if isinstance(a, Term) and any(u in inside for u in T.walk(a))]
        rest = [strip(a) for a in m.args[0] if strip(a) not in dep]
        return (dep[0], rest[0]) if len(dep) == 1 and len(rest) == 1 else (None, None)
    if t.op in ("min", "max"):
        m, outer = split(t)
        if isinstance(m, Term) and m.op in ("min", "max") and m.op != t.op:
            u, inner = split(m)
            if u is not None:
                return mk("clip", u, *((inner, outer) if t.op == "min" else (outer, inner)))
    return t


def c21(ctx):
    I, r = call(ctx, "__call__", (KEY, RES, X0, DATA))
    w = ctx.where(CLS, "optimize")
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und("C21.result", w, "the strategy does not return a triple")
        return
    c = T.fresh("c", 0)
    out = strip(T.elem(r[2], c))
    ctx.same("C21.chains", w, T.length(r[2]), T.length(X0), "one optimised position per chain")
    ctx.same("C21.resources", w, r[1], RES, "no resource is touched")
    if tainted(out) is not None:
        ctx.und("C21.loop", w, f"depends on an unmodelled construct: {tainted(out).args[0]}")
        return
    if isinstance(out, Term) and out.op == "clip":
        B, j = at("bounds"), T.fresh("j", 0)
        if all(T.same(T.elem(strip(b), j), T.elem(T.elem(B, j), k)) for k, b in enumerate(out.args[1:])):
            out = strip(out.args[0])          # clipping once more into the same bounds changes nothing
    if not (isinstance(out, Term) and out.op == "fin"):
        if not any(t.op in ("fin", "stack", "pre", "mcall", "app") for t in T.walk(out)):
            ctx.bad("C21.loop", w, "the returned positions are not the result of any optimisation", out)
            return
        ctx.und("C21.loop", w, f"optimisation loop not found: {txt(out, 300)}")
        return
    lp, k = out.args
    phis, inits, nexts, ys, idx, n, rev = lp.args
    x = phis[k]
    ctx.same("C21.start", w, strip(inits[k]), T.elem(X0, c), "chain c starts at its own position")
    ctx.same("C21.steps", w, n, at("n_steps"), "n_steps updates")
    nx = strip(nexts[k])
    # projection into the box, after the update
    nx = as_clip(nx, phis)
    if nx.op == "clip":
        u, lo, hi = (strip(t) for t in nx.args)
    elif nx.op == "applyupd" or T.contains(nx, mk("attr", SELF, "bounds")) is False:
        ctx.bad("C21.box", w, "the updated parameters are not projected into the bounds", nx)
        return
    else:
        ctx.und("C21.box", w, f"projection not recognised: {txt(nx, 300)}")
        return
    j = T.fresh("j", 0)
    B = at("bounds")
    ctx.same("C21.box.lower", w, T.elem(lo, j), T.elem(T.elem(B, j), 0), "every update is clipped below by bounds[:, 0]")
    ctx.same("C21.box.upper", w, T.elem(hi, j), T.elem(T.elem(B, j), 1), "every update is clipped above by bounds[:, 1]")
    if isinstance(u, Term) and u.op == "applyupd":
        base, up = u.args
    else:
        base, up = x, T.sub(u, x)
    ctx.same("C21.update.params", w, base, x, "the update is applied to the current parameters")
    call_ = up.args[0] if isinstance(up, Term) and up.op == "elem" else None
    if call_ is None or call_.op not in ("mcall", "app"):
        ctx.und("C21.update", w, f"solver call not recognised: {txt(up, 300)}")
        return
    args = call_.args[2] if call_.op == "mcall" else call_.args[1]
    ctx.same("C21.update.first", w, up.args[1], 0, "the update is the first output of the solver")
    g, st = args[0], args[1]
    zs = mh.draws(g)
    if len({z.args[0] for z in zs} - {"normal"}):
        ctx.und("C21.gradient", w, f"noise of the gradient: {txt(g, 300)}")
        return
    g0 = T.subst(g, {z: 0 for z in zs})
    # gradient of -logpdf(., data) at x, built by the same engine
    v = T.fresh("x", 1)
    want = T.neg(T.grad(T.lam(v, logp(v)), x))
    ctx.same("C21.gradient", w, g0, want, "without its noise, the gradient given to the solver is that of -logpdf at "
                                          "the current parameters, on the caller's data")
    gn = T.subst(g, {at("noise_level"): 0})
    ctx.same("C21.noise", w, gn, want, "at noise level 0 the exact gradient is used")
    if len(zs) == 1:
        ctx.same("C21.noise.scale", w, g, T.mul(want, T.add(1, T.mul(at("noise_level"), zs[0]))),
                 "the gradient is scaled by one plus noise_level times a standard normal number")
    if st in phis:
        q = phis.index(st)
        ctx.same("C21.state.next", w, nexts[q], mk("elem", call_, 1), "the solver's state is carried from step to step")
        ini = inits[q]
        ctx.true("C21.state.start", w, isinstance(ini, Term) and ini.op in ("mcall", "app") and
                 T.contains(ini, T.elem(X0, c)), "the solver's state starts from the chain's starting point", ini)
    else:
        if any(t in phis for t in T.walk(st)):
            ctx.und("C21.state.next", w, f"the solver's state is not recognised: {txt(st, 200)}")
        else:
            ctx.bad("C21.state.next", w, "the solver's state is not carried from step to step", st)
    if len(args) > 2:
        ctx.same("C21.update.at", w, args[2], x, "the solver is told the current parameters")


def c21_init(ctx):
    """the constructor keeps what it is given and builds Adam at the configured rate"""
    C = ctx.p.find_class(CLS)
    I = Interp(ctx.p)
    names = ("logpdf", "n_steps", "learning_rate", "noise_level", "bounds")
    w = ctx.where(CLS, "__init__")
    b = I.instantiate(C, [], {n: T.sym(n) for n in names}, None)
    ctx.absorb(I)
    for n in names:
        ctx.same(f"C21.config.{n}", w, strip(I.freeze(I.get_attr(b, n, None))), T.sym(n), f"{n} is kept as given")
    s = I.freeze(I.get_attr(b, "solver", None))
    ctx.true("C21.config.solver", w, isinstance(s, Term) and T.contains(s, T.sym("learning_rate")),
             "the solver uses the configured learning rate", s)


def c21_optimize(ctx):
    """optimize() returns the target at the positions it returns"""
    obj = T.sym("objective")
    T.RANK[("ret", obj)] = 0
    I, r = call(ctx, "optimize", (KEY, obj, X0, DATA))
    w = ctx.where(CLS, "optimize")
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und("C21.final", w, "optimize does not return a triple")
        return
    c = T.fresh("c", 0)
    ctx.same("C21.final", w, T.elem(r[2], c), logp(T.elem(r[1], c)),
             "the final log-probability of a chain is the target at the position returned for it")


def c06_adam(ctx):
    I, r = call(ctx, "__call__", (KEY, RES, X0, DATA))
    w = ctx.where(CLS, "optimize")
    apps = {u for u in T.walk(r) if u.op == "app" and u.args[0] is at("logpdf")}
    for e in I.events:
        if e.kind == "app" and e.fn is at("logpdf"):
            apps.add(mk("app", e.fn, tuple(I.freeze(a) for a in e.args)))
    if not apps:
        ctx.und("C06.optimisation", w, "no evaluation of the density found")
    for a in apps:
        if len(a.args[1]) < 2 or not T.same(a.args[1][1], DATA):
            ctx.bad("C06.optimisation", w, "an evaluation of the density does not receive the caller's data", a)
            return
    ctx.ok("C06.optimisation", w, f"{len(apps)} evaluations of the density use the caller's data")
