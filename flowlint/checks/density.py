"""Flow density and sampling: change of variables with the whitening of the data, and sampling
by exactly the inverse of the map the density uses."""
from .. import terms as T
from ..terms import Term, mk
from . import keys, flows
from .flows import SELF, X
from .base import txt, tainted

KEY, N = T.sym("rng_key"), T.sym("n_samples")


def opaque_flow(p):
    """the flow's own forward and inverse and its base distribution are uninterpreted"""
    D = p.find_class("Distribution")

    def contract(I, obj, name, args, kw, node):
        if obj is SELF and name in ("forward", "__call__", "inverse") and args:
            t = mk("mcall", SELF, "forward" if name == "__call__" else name, (I.freeze(args[0]),))
            out = mk("elem", t, 0), mk("elem", t, 1)
            T.RANK[out[0]], T.RANK[out[1]] = 1, 0
            return out
        ty = I.typeof(obj) if isinstance(obj, Term) else None
        if ty is not None and D in ty[0].mro() and obj is not SELF and name in ("log_prob", "sample", "__call__"):
            a = list(args)
            if name == "sample":
                a = [args[0] if args else kw.get("rng_key"), args[1] if len(args) > 1 else kw.get("n_samples")]
            t = mk("mcall", I.freeze(obj), "sample" if name == "sample" else "log_prob", tuple(I.freeze(x) for x in a[:2 if name == "sample" else 1]))
            T.RANK[t] = 2 if name == "sample" else 0
            return t
        return None
    return contract


def nf(ctx):
    B = ctx.p.find_class("NFModel")
    for C in ctx.p.subclasses(B):
        r = C.lookup("log_prob")
        if r and not ctx.p.is_abstract(r[2]):
            yield C


def c15(ctx):
    for C in nf(ctx):
        R = lambda s: f"C15.{s}[{C.name}]"
        w, ws = ctx.where(C, "log_prob"), ctx.where(C, "sample")
        con = opaque_flow(ctx.p)
        for n, _ in flows.declared(C):
            if n in ("_data_mean", "_data_cov"):
                T.RANK.setdefault(mk("attr", SELF, n), 1 if n == "_data_mean" else 2)
        I, s, r = keys.run_method(ctx, C, "log_prob", ("x",), [("x", 1)], contract=con)
        r = I.freeze(r)
        if tainted(r) is not None:
            ctx.und(R("density"), w, f"depends on an unmodelled construct: {tainted(r).args[0]}")
            continue
        calls = [u for u in T.walk(r) if u.op == "mcall" and u.args[0] is SELF]
        if len(calls) != 1 or calls[0].args[1] != "forward":
            ctx.bad(R("density"), w, "the density is not computed from one forward pass of the flow", r)
            continue
        u = calls[0].args[2][0]
        z, ld = mk("elem", calls[0], 0), mk("elem", calls[0], 1)
        base = [v for v in T.walk(r) if v.op == "mcall" and v.args[1] == "log_prob"]
        if len(base) != 1:
            ctx.bad(R("density.base"), w, "the base density is not evaluated exactly once", r)
            continue
        ctx.same(R("density.base"), w, base[0].args[2][0], z, "the base density is evaluated at the forward image")
        jac = T.sub(r, T.add(base[0], ld))
        if not isinstance(jac, Term) and jac == 0:
            # no whitening Jacobian: only right when there is no whitening
            ctx.same(R("density.whitening"), w, u, X, "without a Jacobian term the flow must see x itself")
        else:
            if T.contains(jac, base[0]) or T.contains(jac, calls[0]):
                ctx.bad(R("density"), w, "log-density is not base log-density + log-determinant + whitening term", r)
                continue
            ctx.ok(R("density"), w, "log-density = base log-density at the image + the flow's log-determinant + whitening term")
            j = T.fresh("j", 0)
            x = T.elem(X, j)
            uj = flows.coord(u, j)
            slope = T.sub(T.subst(uj, {x: 1}), T.subst(uj, {x: 0}))
            lin = T.same(uj, T.add(T.mul(slope, x), T.subst(uj, {x: 0}))) and not T.contains(slope, X)
            if not lin:
                ctx.und(R("density.whitening"), w, f"whitening is not affine per coordinate: {txt(uj, 200)}")
            else:
                jj = flows.summand(jac, j)
                if jj is None and any(u.op not in ("det", "slogdet", "abs", "stop", "cast", "atleast_2d", "diag", "sum", "poly", "log", "elem", "attr", "sym", "comp", "bv", "var", "len") for u in T.walk(jac)):
                    ctx.und(R("density.whitening"), w, f"the whitening term is not read as a sum over coordinates: {txt(jac, 200)}")
                elif jj is None:
                    ctx.bad(R("density.whitening"), w, "the whitening term is not a sum over coordinates", jac)
                else:
                    ctx.same(R("density.whitening"), w, jj, T.log(slope), "the whitening term is the log of its Jacobian, per coordinate")
        # sampling
        I, s, r2 = keys.run_method(ctx, C, "sample", ("rng_key", "n_samples"), contract=con)
        r2 = I.freeze(r2)
        i = T.fresh("i", 0)
        row = T.elem(r2, i) if isinstance(r2, Term) else None
        if row is None or tainted(row) is not None:
            ctx.und(R("sample"), ws, "the samples are not modelled")
            continue
        inv = [v for v in T.walk(row) if v.op == "mcall" and v.args[0] is SELF]
        draws = [v for v in T.walk(row) if v.op == "mcall" and v.args[1] == "sample"]
        if len(inv) != 1 or inv[0].args[1] != "inverse" or len(draws) != 1:
            ctx.bad(R("sample"), ws, "a sample is not one inverse pass over one base sample", row)
            continue
        ctx.same(R("sample.base"), ws, (draws[0].args[0], draws[0].args[2][1]), (base[0].args[0], N),
                 "n_samples draws from the same base distribution the density uses")
        ctx.same(R("sample.inverse"), ws, inv[0].args[2][0], T.elem(draws[0], i), "sample i is the inverse image of base draw i")
        v = mk("elem", inv[0], 0)
        y = T.fresh("y", 1)
        unwhite = T.subst(row, {v: y})
        if T.contains(unwhite, inv[0]):
            ctx.bad(R("sample"), ws, "samples use more than the inverse image", row)
            continue
        j = T.fresh("j", 0)
        back = T.subst(flows.coord(u, j), {T.elem(X, j): flows.coord(unwhite, j)})
        ctx.same(R("sample.whitening"), ws, back, T.elem(y, j), "un-whitening of samples undoes the whitening of the density")
    gaussian(ctx)
    composed(ctx)


def gaussian(ctx):
    for C in ctx.p.subclasses(ctx.p.find_class("Distribution")):
        w, ws = ctx.where(C, "log_prob"), ctx.where(C, "sample")
        R = lambda s: f"C15.{s}[{C.name}]"
        I, s, r = keys.run_method(ctx, C, "log_prob", ("x",), [("x", 1)])
        I2, s2, r2 = keys.run_method(ctx, C, "sample", ("rng_key", "n_samples"))
        r, r2 = I.freeze(r), I2.freeze(r2)
        d = [v for v in T.walk(r) if v.op == "mvnlogpdf"]
        g = [v for v in T.walk(r2) if v.op == "rnd"]
        if not d and not g:
            continue                      # a combination of other distributions
        if len(d) != 1 or not T.same(r, d[0]) or len(g) != 1:
            ctx.und(R("base"), w, f"not a multivariate normal density: {txt(r, 160)}")
            continue
        ctx.same(R("base.point"), w, d[0].args[0], X, "the density is evaluated at the given point")
        ctx.same(R("base.parameters"), ws, g[0].args[3:] if len(g[0].args) > 3 else None, d[0].args[1:], "samples and density share mean and covariance")


def composed(ctx):
    """a distribution made of others on slices of the point: the sum of their log-densities, the dictionary of their samples"""
    for C in ctx.p.subclasses(ctx.p.find_class("Distribution")):
        parts = [n for n, a in flows.declared(C) if n == "distributions"]
        if not parts:
            continue
        w, ws = ctx.where(C, "log_prob"), ctx.where(C, "sample")
        R = lambda s: f"C15.{s}[{C.name}]"
        con = opaque_flow(ctx.p)
        D, P = T.attr(SELF, "distributions"), T.attr(SELF, "partitions")
        I, s, r = keys.run_method(ctx, C, "log_prob", ("x",), [("x", 1)], contract=con)
        r = I.freeze(r)
        i = T.fresh("i", 0)
        term = n = None
        if isinstance(r, Term) and r.op == "fin" and len(r.args[0].args[0]) == 1:
            (phi,), (init,), (nx,), _, idx, n, _ = r.args[0].args
            if T.same(init, 0):
                term = T.subst(T.sub(nx, phi), {idx: i})
                term = None if T.contains(term, phi) else term
            elif T.const_of(init) is not None:
                ctx.bad(R("parts"), w, "the log-density does not start at 0", init)
                continue
            if term is None and not T.contains(nx, phi):
                ctx.bad(R("parts"), w, "the log-density is that of one part only", nx)
                continue
        elif isinstance(r, Term) and r.op == "sum" and isinstance(r.args[0], Term) and r.args[0].op == "comp":
            v, body, n = r.args[0].args
            term = T.subst(body, {v: i})
        if term is None or tainted(term) is not None:
            ctx.und(R("parts"), w, f"not a sum over the parts: {txt(r, 200)}")
        else:
            ctx.same(R("parts.count"), w, n, T.length(D), "every part contributes")
            rg = mk("dval", P, i)
            lo, hi = T.elem(rg, 0), T.elem(rg, 1)
            k = T.fresh("k", 0)
            good = isinstance(term, Term) and term.op == "mcall" and term.args[1] == "log_prob" and len(term.args[2]) == 1
            ctx.true(R("parts"), w, good and T.same(term.args[0], T.elem(D, i)), "part i contributes its own log-density", term)
            if good:
                u = term.args[2][0]
                ctx.same(R("parts.slice"), w, (T.elem(u, k), T.length(u)), (T.elem(X, T.add(lo, k)), T.sub(T.min_(T.length(X), hi), lo)),
                         "part i is evaluated on the coordinates of its own partition")
        I, s, r = keys.run_method(ctx, C, "sample", ("rng_key", "n_samples"), contract=con)
        segs = [q for q in (I.st.heap.get(r, {}).get("#d") or ())] if isinstance(r, Term) else []
        if len(segs) != 1 or not hasattr(segs[0], "items") or len(segs[0].items) != 1:
            ctx.und(R("sample.parts"), ws, "the samples are not one dictionary over the parts")
            continue
        g = segs[0]
        kk, val = [T.subst(I.freeze(q), {g.idx: i}) for q in g.items[0]]
        good = isinstance(val, Term) and val.op == "mcall" and val.args[1] == "sample" and len(val.args[2]) > 1
        ctx.true(R("sample.parts"), ws, good and T.same(val.args[0], T.elem(D, i)), "entry i holds samples of part i", val)
        # iterating over a dictionary gives its keys
        kk = mk("dkey", P, i) if T.same(kk, T.elem(P, i)) else kk
        ctx.same(R("sample.names"), ws, (kk, g.n), (mk("dkey", P, i), T.length(D)), "the entries carry the names of the partitions")
        if good:
            ctx.same(R("sample.count"), ws, val.args[2][1], N, "n_samples draws of every part")
