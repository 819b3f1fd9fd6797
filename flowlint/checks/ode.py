"""Flow matching: the probability path it is trained on, the ODE it samples with and the ODE its
density integrates."""
from fractions import Fraction
from .. import terms as T
from ..terms import Term, mk
from . import keys, flows, train
from .flows import SELF
from .base import txt, tainted

X1, X, DT, N = T.sym("x1"), T.sym("x"), T.sym("dt"), T.sym("n_samples")


def field(o):
    """the right-hand side of an ode term: (t, [y..]) and its outputs"""
    f = o.args[0]
    n = len(o.args[5])
    t = T.fresh("t", 0)
    ys = [T.fresh("y", T.rank(f0)) for f0 in o.args[5]]
    body = f
    for v in [t] + ys:
        if not (isinstance(body, Term) and body.op == "lam"):
            return None
        body = T.subst(body.args[1], {body.args[0]: v})
    if not (isinstance(body, Term) and body.op == "tup" and len(body.args[0]) == n):
        return None
    return t, ys, list(body.args[0])


def solved(t, k=None):
    """the ode whose final value t is (component k)"""
    while isinstance(t, Term) and t.op == "elem":
        t = t.args[0]
    if isinstance(t, Term) and t.op == "odesol" and (k is None or t.args[1] == k):
        return t.args[0]
    return None


def sols(t):
    return {u for u in T.walk(t) if u.op == "odesol"}


def same_entries(a, b):
    """equal vectors, written as arrays or as one number for every coordinate"""
    if T.same(a, b):
        return True
    j = T.fresh("j", 0)
    e = lambda v: T.elem(v, j) if isinstance(v, Term) and T.rank(v) != 0 else v
    return T.same(e(a), e(b))


def divergence(v, net, t, y):
    """v is the trace over y of the jacobian of net([y, t])"""
    if isinstance(v, Term) and v.op == "sum" and isinstance(v.args[0], Term) and v.args[0].op == "diag":
        v = mk("trace", v.args[0].args[0])
    if isinstance(v, Term) and v.op in ("sum", "det", "prod", "amax", "amin", "any", "all"):
        return False                  # some other number made of the jacobian's entries
    if not (isinstance(v, Term) and v.op == "trace"):
        return None
    M = v.args[0]
    js = [u for u in T.walk(M) if u.op == "jac"]
    if not js:
        return None
    J = js[-1] if len(js) == 1 else [u for u in js if not any(T.contains(w, u) and w is not u for w in js)][0]
    lamb, point = J.args[0], J.args[1]
    z = T.fresh("z", 1)
    if not (isinstance(lamb, Term) and lamb.op == "lam"):
        return None
    body = T.subst(lamb.args[1], {lamb.args[0]: z})
    if M is J:                         # jacobian of the velocity as a function of y alone
        return T.same(point, y) and T.same(body, velocity(net, z, t))
    if not (T.same(body, velocity_at(net, z)) and isinstance(point, Term) and point.op == "concat"
            and len(point.args[0]) == 2 and T.same(point.args[0][0], y)):
        return False
    w = T.fresh("w", 0)
    row = T.elem(M, w)                # rows of the jacobian without its last (time) column
    jr = T.elem(J, w)
    return (isinstance(row, Term) and row.op == "slice" and T.same(row.args[0], jr) and T.const_of(row.args[1]) == 0
            and T.const_of(row.args[2]) == 1 and T.same(row.args[3], T.sub(T.length(jr), 1)))


def velocity_at(net, z):
    return mk("mcall", net, "network", (z,))


def velocity(net, y, t):
    return velocity_at(net, mk("concat", (y, mk("arr", (t,)))))


def c16(ctx):
    solver(ctx)
    model(ctx)
    path(ctx)


def solver(ctx):
    C = ctx.p.find_class("Solver")
    con = train.network(keys.opaque_models(ctx.p))
    ws, wl = ctx.where(C, "sample"), ctx.where(C, "log_prob")
    net = T.attr(SELF, "model")
    # sampling
    I, s, r = keys.run_method(ctx, C, "sample", ("rng_key", "n_samples", "dt"), [("dt", 0)], contract=con)
    r = I.freeze(r)
    I2, s2, q = keys.run_method(ctx, C, "log_prob", ("x1", "dt"), [("x1", 1), ("dt", 0)], contract=con)
    q = I2.freeze(q)
    for v, w in ((r, ws), (q, wl)):
        if tainted(v) is not None:
            ctx.und("C16.solver", w, f"depends on an unmodelled construct: {tainted(v).args[0]}")
            return
    i = T.fresh("i", 0)
    row = T.elem(r, i)
    o = solved(row, 0)
    if o is None:
        ctx.bad("C16.sample", ws, "a sample is not the end point of an ode", row)
        return
    ctx.same("C16.sample.count", ws, T.length(r), N, "n_samples samples are drawn")
    F = field(o)
    if F is None or len(F[2]) != 1:
        ctx.und("C16.sample.field", ws, f"right-hand side {txt(o, 200)}")
        return
    t, (y,), (v,) = F
    ctx.same("C16.sample.field", ws, v, velocity(net, y, t), "samples move along the network's velocity at (x, t)")
    ctx.same("C16.sample.time", ws, (o.args[2], o.args[3]), (0, 1), "from time 0 to time 1")
    ctx.same("C16.sample.step", ws, o.args[4], DT, "with forward steps of size dt")
    y0 = o.args[5][0]
    base = y0.args[0] if isinstance(y0, Term) and y0.op == "elem" else None
    ok = isinstance(base, Term) and base.op == "rnd" and base.args[0] == "normal" and T.same(y0.args[1], i)
    ctx.true("C16.sample.base", ws, ok, "sample i starts from standard-normal draw i", y0)
    # density
    ss = sols(q)
    os_ = {u.args[0] for u in ss}
    if len(os_) != 1:
        ctx.bad("C16.density", wl, "the density does not follow one ode", q)
        return
    o = os_.pop()
    F = field(o)
    if F is None or len(F[2]) != 2:
        ctx.bad("C16.density.field", wl, "the density does not integrate position and log-density together", o)
        return
    t, ys, vs = F
    px = [k for k in range(2) if T.same(o.args[5][k], X1)]
    if len(px) != 1:
        ctx.bad("C16.density.start", wl, "the ode does not start from the given point", o.args[5])
        return
    k = px[0]
    ctx.same("C16.density.start", wl, o.args[5][1 - k], 0, "the accumulated divergence starts at zero")
    ctx.same("C16.density.field", wl, vs[k], velocity(net, ys[k], t), "the density follows the same velocity field as the samples")
    d = divergence(vs[1 - k], net, t, ys[k])
    if d is None:
        flip = divergence(T.neg(vs[1 - k]), net, t, ys[k])
        if flip is None and not any(u.op == "jac" for u in T.walk((vs[1 - k],))):
            ctx.bad("C16.density.divergence", wl, "the log-density does not accumulate the divergence of the velocity", vs[1 - k])
            return
        if flip is None:
            ctx.und("C16.density.divergence", wl, f"accumulated rate {txt(vs[1 - k], 300)}")
            return
        d, sign = flip, -1
    else:
        sign = 1
    ctx.true("C16.density.divergence", wl, d, "the accumulated rate is the trace of the velocity's jacobian with respect to the point", vs[1 - k])
    ctx.same("C16.density.time", wl, (o.args[2], o.args[3]), (1, 0), "from time 1 back to time 0")
    ctx.same("C16.density.step", wl, o.args[4], T.neg(DT), "with backward steps of size dt")
    x0 = mk("odesol", o, k)
    acc = mk("odesol", o, 1 - k)
    q = joint_normal(q, x0)
    g = [u for u in T.walk(q) if u.op == "mvnlogpdf"]
    if len(g) != 1:
        ctx.bad("C16.density.base", wl, "the base density is not one standard normal", q)
        return
    pt = g[0].args[0]
    ctx.true("C16.density.point", wl, pt is x0 or isinstance(pt, Term) and pt.op == "elem" and pt.args[0] is x0,
             "the base density is taken at the point the ode ends in", pt)
    j, l = T.fresh("j", 0), T.fresh("l", 0)
    mean = g[0].args[1]
    for u in T.walk((mean,)):
        if u.op == "attr" and u.args[1] in ("out_features", "in_features", "n_output", "n_input"):
            T.RANK[u] = 0             # sizes are numbers
    ctx.same("C16.density.mean", wl, T.elem(mean, j) if isinstance(mean, Term) and T.rank(mean) != 0 else mean, 0, "the base density is centred like the base draws")
    ctx.true("C16.density.cov", wl, isinstance(g[0].args[2], Term) and g[0].args[2].op == "eye" or T.same(g[0].args[2], 1),
             "the base density has unit covariance like the base draws", g[0].args[2])
    last = [u for u in T.walk(q) if u.op == "elem" and u.args[0] is acc]
    a = last[0] if last else acc
    ctx.same("C16.density", wl, q, T.add(g[0], T.mul(sign, a)), "log-density = base log-density minus the integral of the divergence from 0 to 1")


def joint_normal(q, x0):
    """a sum of standard-normal log-densities of the entries of x0 is one multivariate one"""
    from ..lib import LOG2PI
    at = [x0] + [u for u in T.walk(q) if u.op == "elem" and u.args[0] is x0]

    def one(u):
        if u.op == "sum":
            for x in at:
                if T.same(u.args[0], T.mul(Fraction(-1, 2), T.add(T.mul(x, x), LOG2PI))):
                    return mk("mvnlogpdf", x, 0, 1)
        return None
    q = T.expand(q, one)
    sizes = [u for u in T.walk(q) if u.op == "attr" and u.args[1] in ("out_features", "in_features", "n_output", "n_input")]
    sizes += [u for u in T.walk(q) if u.op == "len" and u.args[0] in at]
    for x in at:
        sq = [u for u in T.walk(q) if u.op in ("sum", "dot") and (
            u.op == "sum" and T.same(u.args[0], T.mul(x, x)) or u.op == "dot" and len(u.args) == 1 and u.args[0] == (x, x)
            or u.op == "dot" and u.args == (x, x))]
        for d in sq:
            for n in sizes:
                rest = T.add(q, T.mul(Fraction(1, 2), d), T.mul(Fraction(1, 2), n, LOG2PI))
                if not T.contains(rest, x) and not T.contains(rest, mk("pi")):
                    return T.add(rest, mk("mvnlogpdf", x, 0, 1))
    return q


def model(ctx):
    """whitening around the ode"""
    C = ctx.p.find_class("FlowMatchingModel")
    w, ws = ctx.where(C, "log_prob"), ctx.where(C, "sample")
    for n_, k_ in (("_data_mean", 1), ("_data_cov", 2)):
        T.RANK.setdefault(T.attr(SELF, n_), k_)
    so = T.attr(SELF, "solver")

    def con(I, obj, name, args, kw, node):
        if isinstance(obj, Term) and obj is so and name in ("sample", "log_prob"):
            if name == "log_prob":
                t = mk("mcall", so, "log_prob", (I.freeze(args[0] if args else kw.get("x1")),))
                T.RANK[t] = 0
            else:
                t = mk("mcall", so, "sample", tuple(I.freeze(train.scen.argval(("rng_key", "n_samples", "dt"), args, kw, q)) for q in range(3)))
                T.RANK[t] = 2
            return t
        return None
    I, s, r = keys.run_method(ctx, C, "log_prob", ("x",), [("x", 1)], contract=con)
    r = I.freeze(r)
    I2, s2, r2 = keys.run_method(ctx, C, "sample", ("rng_key", "num_samples", "dt"), contract=con)
    r2 = I2.freeze(r2)
    if tainted((r, r2)) is not None:
        ctx.und("C16.model", w, f"depends on an unmodelled construct: {tainted((r, r2)).args[0]}")
        return
    lp = [u for u in T.walk(r) if u.op == "mcall" and u.args[0] is so]
    if len(lp) != 1 or lp[0].args[1] != "log_prob":
        ctx.bad("C16.model.density", w, "the density is not one density of the ode", r)
        return
    u = lp[0].args[2][0]
    jac = T.sub(r, lp[0])
    j = T.fresh("j", 0)
    x = T.elem(X, j)
    uj = flows.coord(u, j)
    slope = T.sub(T.subst(uj, {x: 1}), T.subst(uj, {x: 0}))
    if not T.same(uj, T.add(T.mul(slope, x), T.subst(uj, {x: 0}))) or T.contains(slope, X):
        ctx.und("C16.model.whitening", w, f"whitening is not affine per coordinate: {txt(uj, 200)}")
        return
    if not isinstance(jac, Term) and jac == 0:
        ctx.same("C16.model.whitening", w, slope, 1, "without a Jacobian term there must be no scaling")
    else:
        jj = flows.summand(jac, j) if not T.contains(jac, lp[0]) else None
        if jj is None:
            ctx.bad("C16.model.whitening", w, "density is not the ode's density plus a sum over coordinates", r)
        else:
            ctx.same("C16.model.whitening", w, jj, T.log(slope), "the whitening term is the log of its Jacobian, per coordinate")
    i = T.fresh("i", 0)
    row = T.elem(r2, i)
    dr = [v for v in T.walk(row) if v.op == "mcall" and v.args[0] is so]
    if len(dr) != 1 or dr[0].args[1] != "sample":
        ctx.bad("C16.model.sample", ws, "a sample is not one end point of the ode", row)
        return
    a = dr[0].args[2]
    ctx.same("C16.model.arguments", ws, a[1:], (T.sym("num_samples"), DT), "num_samples end points are drawn with the given step")
    y = T.fresh("y", 1)
    un = T.subst(row, {T.elem(dr[0], i): y})
    if T.contains(un, dr[0]):
        ctx.bad("C16.model.sample", ws, "row i is not computed from end point i alone", row)
        return
    back = T.subst(uj, {x: flows.coord(un, j)})
    ctx.same("C16.model.unwhitening", ws, back, T.elem(y, j), "un-whitening of samples undoes the whitening of the density")


def derivative(t, v):
    """d t / d v of a polynomial term, or None"""
    out = 0
    for m, c in T.to_poly(t).items():
        ks = [(a, k) for a, k in m if a is v]
        if any(a is not v and T.contains(a, v) for a, k in m):
            return None
        if ks:
            k = ks[0][1]
            rest = tuple((a, e) for a, e in m if a is not v)
            out = T.add(out, T.mul(c * k, T.from_poly({rest: 1}), T.power(v, k - 1)))
    return out


def path(ctx):
    P = ctx.p.find_class("Path")
    w = ctx.where(P, "sample")
    t = T.sym("t")
    con = train.schedule(ctx.p, lambda *a: None)
    I, s, r = keys.run_method(ctx, P, "sample", ("x0", "x1", "t"), [("x0", 1), ("x1", 1), ("t", 0)], contract=con)
    r = I.freeze(r)
    if not isinstance(r, tuple) or len(r) != 2 or tainted(r) is not None:
        ctx.und("C16.path", w, "the path does not return a point and a velocity")
    else:
        al, dal, sg, dsg = [mk(q, t) for q in train.PATH]
        x0, x1 = T.sym("x0"), T.sym("x1")
        ctx.same("C16.path.point", w, r[0], T.add(T.mul(sg, x0), T.mul(al, x1)), "the path mixes base sample and data sample by sigma and alpha")
        ctx.same("C16.path.velocity", w, r[1], T.add(T.mul(dsg, x0), T.mul(dal, x1)), "its velocity mixes them by the derivatives")
    S = ctx.p.find_class("Scheduler")
    for C in ctx.p.subclasses(S):
        f = C.lookup("__call__")
        if f is None or ctx.p.is_abstract(f[2]) or f[0] is S:
            continue
        w = ctx.where(C, "__call__")
        R = lambda q: f"C16.{q}[{C.name}]"
        T.RANK[t] = 0
        I, s, r = keys.run_method(ctx, C, "__call__", ("t",), [("t", 0)])
        r = I.freeze(r)
        if not isinstance(r, tuple) or len(r) != 4 or tainted(r) is not None:
            ctx.und(R("scheduler"), w, "the scheduler does not return four coefficients")
            continue
        al, dal, sg, dsg = r
        at = lambda v, c: T.subst(v, {t: c}) if isinstance(v, Term) else v
        ctx.same(R("scheduler.ends"), w, (at(al, 0), at(al, 1), at(sg, 0), at(sg, 1)), (0, 1, 1, 0),
                 "the path is the base sample at time 0 and the data sample at time 1")
        for nm, f_, df in (("alpha", al, dal), ("sigma", sg, dsg)):
            d = derivative(f_, t)
            if d is None:
                ctx.und(R(f"scheduler.{nm}"), w, f"derivative of {txt(f_)}")
            else:
                ctx.same(R(f"scheduler.{nm}"), w, df, d, f"the reported derivative of {nm} is its derivative")
