"""Rational-quadratic spline bijection: monotone, hits its knots, exact inverse, own Jacobian.

The coordinate of the output is a cascade of regions (below / inside / above the knots); each
region is a closed expression, compared as an exact rational function (sympy) in the knots of
the selected bin."""
import sympy as sp

from fractions import Fraction
from .. import terms as T
from ..terms import Term, mk
from . import keys, flows
from .flows import X, SELF, coord, pair
from .algebra import Frac, Foreign, sign, root
from .base import txt, tainted

K, XS, P0, Q0, W, H, D0, D1, TT = sp.field("x,p,q,w,h,d0,d1,t", sp.QQ)


class Odd(Exception):
    """the term does not have the form these rules decide"""


def splines(ctx):
    for C in flows.bijections(ctx):
        if not flows.has_mask(C):
            yield C


def outer(t):
    """conditions of the cascade of selections at the top of t"""
    out = []

    def go(u):
        if isinstance(u, Term) and u.op == "sel":
            if u.args[0] not in out:
                out.append(u.args[0])
            go(u.args[1])
            go(u.args[2])
    go(t)
    return out


def side(c, x):
    """('below'|'above', threshold, negated) of a comparison of x with a number"""
    neg = False
    while isinstance(c, Term) and c.op == "not":
        c, neg = c.args[0], not neg
    if not (isinstance(c, Term) and c.op in ("le0", "lt0")):
        raise Odd(f"region condition {txt(c, 120)}")
    a = T.subst(c.args[0], {x: 0})
    k = T.const_of(T.sub(T.subst(c.args[0], {x: 1}), a))
    if k is None or k == 0 or T.contains(a, x):
        raise Odd(f"region condition is not linear in x: {txt(c, 120)}")
    return ("below" if k > 0 else "above"), T.mul(a, -1 / k), neg


def regions(t, x):
    """{'below': (threshold, term), 'inside': (None, term), 'above': ...}"""
    info = {}

    def read(c):
        if isinstance(c, Term) and c.op in ("and", "or"):
            for q in c.args[0]:
                read(q)
        elif isinstance(c, Term) and c.op == "not" and c.args[0].op in ("and", "or", "not"):
            read(c.args[0])
        else:
            info[c] = side(c, x)

    def truth(c, which):
        if c in info:
            k, _, neg = info[c]
            return (k == which) != neg
        if c.op == "not":
            return not truth(c.args[0], which)
        return (all if c.op == "and" else any)(truth(q, which) for q in c.args[0])
    cs = outer(t)
    for c in cs:
        read(c)

    def at(u, which):
        while isinstance(u, Term) and u.op == "sel" and u.args[0] in cs:
            u = u.args[1] if truth(u.args[0], which) else u.args[2]
        for c in info:
            if isinstance(u, Term):
                u = T.assume(u, c, truth(c, which))
        return u
    thr = {}
    for k, a, neg in info.values():
        if k in thr and not T.same(thr[k], a):
            raise Odd(f"two thresholds {k}")
        thr[k] = a
    if set(thr) != {"below", "above"}:
        raise Odd(f"regions found: {sorted(thr)}")
    return {w: (thr.get(w), at(t, w)) for w in ("below", "inside", "above")}


class Bin:
    """resolves sums over the one-hot bin mask to the value of the selected bin k"""

    def __init__(self, x):
        self.x, self.k = x, T.fresh("k", 0)
        self.masks = []

    def resolve(self, t):
        return T.expand(t, self.one) if isinstance(t, Term) else t

    def one(self, u):
        if u.op == "argmax" and T.rank(u.args[0]) == 1:
            m = T.elem(u.args[0], self.k)
            while isinstance(m, Term) and m.op == "cast":
                m = m.args[0]
            if isinstance(m, Term) and T.contains(m, self.x):
                self.add(m)
                return self.k
        if u.op == "elem":
            inner = self.one(u.args[0]) if isinstance(u.args[0], Term) else None
            if inner is not None:
                return T.elem(inner, u.args[1])
        if u.op not in ("sum", "dot"):
            return None
        if u.op == "sum":
            row = T.elem(u.args[0], self.k)
        else:
            fs = u.args[0]
            if len(fs) != 2:
                return None
            row = T.mul(T.elem(fs[0], self.k), T.elem(fs[1], self.k))
        m = self.factor(row)
        if m is None:
            return None
        self.add(m)
        r = T.subst(row, {m: 1, mk("newax", m): 1})
        return T.expand(r, lambda v: 1 if v.op in ("cast", "newax") and v.args[0] == 1 else None) if isinstance(r, Term) else r

    def add(self, m):
        if not any(T.same(m, q) for q in self.masks):
            self.masks.append(m)

    def factor(self, row):
        """the boolean of bin k the row is multiplied with"""
        for u in T.walk(row):
            if u.op == "sel" and T.rank(u) in (0, None) and self.boolean(u) and self.cmp(u):
                return u
            if u.op == "and" and T.contains(u, self.x) and T.contains(u, self.k):
                return u
        return None

    def boolean(self, u):
        return all(isinstance(a, bool) or isinstance(a, Term) and (a.op in ("and", "not", "le0", "lt0", "eq0", "or")
                   or a.op == "elem" or a.op == "cast") for a in u.args[1:])

    def cmp(self, u):
        return any(v.op in ("le0", "lt0") and T.contains(v, self.x) and T.contains(v, self.k) for v in T.walk(u))


def knots_of(mask, x, k):
    """the array whose consecutive entries bracket x in bin k; (array, why not)"""
    m = mask
    if m.op == "sel":
        c = m.args[0]
        if not (isinstance(c, Term) and c.op == "any"):
            return None, "the bin is not chosen by whether any bin matches"
        m = m.args[1]
    parts = m.args[0] if isinstance(m, Term) and m.op == "and" else None
    if parts is None or len(parts) != 2:
        return None, "the bin is not chosen by two comparisons"
    lo = hi = None
    for c in parts:
        try:
            s, thr, neg = side(c, x)
        except Odd as e:
            return None, str(e)
        strict = c.op == "lt0" if not neg else c.args[0].op == "le0"
        if (s == "above") != neg:
            lo = (thr, strict)
        else:
            hi = (thr, strict)
    if lo is None or hi is None:
        return None, "the bin is not bracketed from both sides"
    a, b = lo[0], hi[0]
    if not (isinstance(a, Term) and a.op == "elem"):
        return None, f"lower bracket {txt(a, 80)}"
    arr = a.args[0]
    if not T.same(a, T.elem(arr, k)) or not T.same(b, T.elem(arr, T.add(k, 1))):
        return None, f"bin k is bracketed by {txt(a, 80)} and {txt(b, 80)}, not by knots k and k+1"
    if lo[1] == hi[1]:
        return None, "a point on a knot belongs to " + ("no bin" if lo[1] else "two bins")
    return arr, None


EPS = Fraction(1, 10 ** 5)


class Clamped(Odd):
    pass


class Inside(Frac):
    """clip(u, 0, 1) and the guards of a square root are inactive inside the range"""

    def value(self, t):
        if isinstance(t, Term) and t.op == "clip":
            lo, hi = T.const_of(t.args[1]), T.const_of(t.args[2]) if t.args[2] is not None else None
            if t.args[2] is None and (lo == 0 or tiny(t.args[1])):
                return self(t.args[0])
            if lo is not None and hi is not None:
                if lo <= EPS and hi >= 1 - EPS:
                    return self(t.args[0])
                if 0 <= lo < hi <= 1:
                    raise Clamped(f"the place within the bin is kept between {float(lo):g} and {float(hi):g}: points "
                                  "near a knot are moved")
        if isinstance(t, Term) and t.op in ("min", "max") and len(t.args[0]) == 2:
            other = "max" if t.op == "min" else "min"
            for a, b in (t.args[0], t.args[0][::-1]):
                if isinstance(b, Term) and b.op == other and len(b.args[0]) == 2:
                    for c, d in (b.args[0], b.args[0][::-1]):
                        if T.const_of(a) is not None and T.const_of(c) is not None:
                            lo, hi = (c, a) if t.op == "min" else (a, c)
                            return self.value(mk("clip", d, lo, hi))
        if isinstance(t, Term) and t.op == "max" and len(t.args[0]) == 2:
            for a, b in (t.args[0], t.args[0][::-1]):
                if T.const_of(a) == 0 or tiny(a):
                    return self(b)
        return Frac.value(self, t)


def tiny(a):
    return isinstance(a, Term) and a.op == "attr" and a.args[1] in ("tiny", "eps", "smallest_normal")


def branches(t):
    """every way through the selections inside t: [(list of (condition, value)), term]"""
    for u in T.walk(t):
        if u.op == "sel":
            c = u.args[0]
            for v in (True, False):
                for cs, r in branches(T.assume(t, c, v)):
                    yield [(c, v)] + cs, r
            return
    yield [], t


class Region:
    """the parameters of the selected bin as symbols"""

    def __init__(self, k, xp, yp, slopes):
        k1 = T.add(k, 1)
        self.names = {T.elem(xp, k): P0, T.elem(xp, k1): P0 + W, T.elem(yp, k): Q0, T.elem(yp, k1): Q0 + H,
                      T.elem(slopes, k): D0, T.elem(slopes, k1): D1}

    def alg(self, x, val):
        return Inside(K, {**self.names, x: val})


def at_x(e, v):
    """the rational function e with x replaced by v"""
    def poly(q):
        out = K(0)
        for mon, c in q.terms():
            out = out + K(c) * v ** mon[0] * K(q.ring.from_dict({(0,) + tuple(mon[1:]): 1}))
        return out
    return poly(e.numer) / poly(e.denom)


def show(e):
    return mk("expr", str(e.as_expr()) if hasattr(e, "as_expr") else str(e))


def c14(ctx):
    n = 0
    for C in splines(ctx):
        w, wi = ctx.where(C, "forward"), ctx.where(C, "inverse")
        R = lambda s: f"C14.{s}[{C.name}]"
        con = keys.opaque_models(ctx.p)
        flows.coordinate_parameters(C)
        f = pair(ctx, C, "forward", R("forward"), w, con)
        g = pair(ctx, C, "inverse", R("inverse"), wi, con)
        if f is None or g is None:
            continue
        j = T.fresh("j", 0)
        x = T.elem(X, j)
        Y, L, Xi, Li = [coord(t, j) for t in f[2:] + g[2:]]
        if not flows.cascade(Y, x):
            continue                       # one expression: decided by C13
        n += 1
        for t in (Y, L, Xi, Li):
            if not flows.free_of(t, X, x):
                ctx.bad(R("coordinate"), w, "a coordinate of the spline depends on another coordinate of x than its own", t)
                break
        else:
            ctx.ok(R("coordinate"), w, "coordinate j depends on x only through x[j]; knots come from the condition")
        try:
            spline(ctx, R, w, wi, x, Y, L, Xi, Li)
        except Clamped as e:
            ctx.bad(R("clamp"), w, str(e))
        except Odd as e:
            ctx.und(R("form"), w, str(e))


def selected(ctx, R, w, x, *ts):
    """the inside terms with the parameters of the selected bin, and the bracketing knots"""
    b = Bin(x)
    out = [b.resolve(t) for t in ts]
    if len(b.masks) != 1:
        raise Odd(f"{len(b.masks)} bin masks found")
    arr, why = knots_of(b.masks[0], x, b.k)
    if arr is None:
        if "not by knots" in why or "point on a knot" in why:
            ctx.bad(R("bin"), w, why, b.masks[0])
        raise Odd(why)
    ctx.ok(R("bin"), w, "x is assigned to the one bin whose knots bracket it")
    return b.k, arr, out


PASS = ("poly", "log", "sqrt", "sel", "clip", "max", "min", "cast", "lt0", "le0", "not", "and", "or", "abs", "square")


def parts_of(ts):
    """what the arithmetic of the terms is made of"""
    out, todo, seen = set(), list(ts), set()
    while todo:
        u = todo.pop()
        if isinstance(u, (tuple, list)):
            todo += u
        elif isinstance(u, Term) and u not in seen:
            seen.add(u)
            out.add(u)
            if u.op in PASS and not tiny(u):
                todo += u.args[:1] if u.op == "cast" else u.args
    return out


def slope_array(ts, k, arrays, x, end):
    """slopes given by an expression per knot: ((symbol, array), the terms in the symbol's entries)"""
    k1 = T.add(k, 1)
    atoms, polys, seen = [], [], set()

    def go(u):
        if isinstance(u, (tuple, list)):
            for v in u:
                go(v)
            return
        if not isinstance(u, Term) or u in seen or not T.contains(u, k):
            return
        seen.add(u)
        if u.op == "elem" and u.args[0] in arrays or tiny(u):
            return
        if u.op in PASS:
            if u.op == "poly":
                polys.append(u)
            for v in (u.args[:1] if u.op == "cast" else u.args):
                go(v)
        elif u not in atoms:
            atoms.append(u)
    go(ts)
    if len(atoms) != 2:
        return None, ts
    a, b = atoms
    if not T.same(T.subst(a, {k: k1}), b):
        a, b = b, a
    if not T.same(T.subst(a, {k: k1}), b) or T.contains(a, x):
        return None, ts
    first = T.subst(a, {k: 0})
    offsets = [T.sub(u, a) for u in polys + [a]] + [T.sub(u.args[0], first) for u in T.walk(end) if u.op == "log"]
    for c in offsets:
        if isinstance(c, Term) and (T.contains(c, k) or T.contains(c, x)):
            continue
        S = T.sym(f"slopes#{k.args[0] if k.args else ''}")
        T.RANK[S] = 1
        kv = T.fresh("k", 0)
        out = [T.subst(t, {a: T.sub(T.elem(S, k), c), b: T.sub(T.elem(S, k1), c)}) for t in ts]
        if any(not (u.op in PASS or tiny(u) or u is x or u.op == "elem" and (u.args[0] is S or u.args[0] in arrays))
               for u in parts_of(out)):
            continue
        n = T.length(arrays[0])
        return (S, T.comp(kv, T.add(T.subst(a, {k: kv}), c), n)), out
    return None, ts


def spline(ctx, R, w, wi, x, Y, L, Xi, Li):
    fy, fl, gx, gl = [regions(t, x) for t in (Y, L, Xi, Li)]
    kf, xp, (Yin, Lin) = selected(ctx, R, w, x, fy["inside"][1], fl["inside"][1])
    kg, yp, (Xin, Lii) = selected(ctx, lambda s: R("inverse-" + s), wi, x, gx["inside"][1], gl["inside"][1])
    k = T.fresh("k", 0)
    Yin, Lin = T.subst(Yin, {kf: k}), T.subst(Lin, {kf: k})
    Xin, Lii = T.subst(Xin, {kg: k}), T.subst(Lii, {kg: k})
    arrays = []
    seen = set()

    def collect(u):
        if isinstance(u, tuple):
            for v in u:
                collect(v)
            return
        if not isinstance(u, Term) or u in seen:
            return
        seen.add(u)
        if u.op == "elem" and (u.args[1] is k or T.same(u.args[1], T.add(k, 1))):
            if u.args[0] not in arrays:
                arrays.append(u.args[0])
            return
        for v in u.args:
            collect(v)
    collect((Yin, Lin))
    real = None
    if len(arrays) == 2:
        real, (Yin, Lin, Xin, Lii) = slope_array((Yin, Lin, Xin, Lii), k, arrays, x, fl["below"][1])
        if real is not None:
            arrays.append(real[0])
    rest = [q for q in arrays if q is not xp]
    if len(arrays) != 3 or len(rest) != 2:
        raise Odd(f"{len(arrays)} knot arrays found inside the spline")
    left, read = None, False
    for q, sl in (rest, rest[::-1]):
        try:
            at = Region(k, xp, q, sl).alg(x, P0)(Yin)
            read = True
            if at == Q0:
                left = (q, sl)
        except Foreign as e:
            odd = txt(e.args[0], 200)
    if not read:
        raise Odd(f"the inside of the spline uses {odd}")
    if left is None:
        ctx.bad(R("left-knot"), w, "the left knot of a bin does not map to a left height", Yin)
        return
    if left[0] is not yp:
        ctx.bad(R("inverse-bin"), wi, "the inverse does not pick the bin by the knots the forward map lands on", yp, left[0])
        return
    sl = left[1]
    Rg = Region(k, xp, yp, sl)
    if real is not None and sl is real[0]:
        sl = real[1]
    z = P0 + W * TT / (1 + TT)              # t from 0 to infinity runs through the bin
    try:
        alg = Rg.alg(x, XS)
        y, dy, ld = alg(Yin), alg(Yin).diff(XS), alg.exp_of(Lin)
        yz, ldz = Rg.alg(x, z)(Yin), Rg.alg(x, z).exp_of(Lin)
        ends = [(Rg.alg(x, v)(Yin), at_x(dy, v)) for v in (P0, P0 + W)]
    except Foreign as e:
        raise Odd(f"the inside of the spline uses {txt(e.args[0], 200)}")

    def eq(rule, where, a, b, what):
        good = a == b
        (ctx.ok if good else ctx.bad)(R(rule), where, what, *(() if good else (show(a), show(b))))
        return good
    good = eq("left-knot", w, ends[0][0], Q0, "the left knot of a bin maps to its left height")
    good &= eq("right-knot", w, ends[1][0], Q0 + H, "the right knot of a bin maps to its right height")
    good &= eq("log-det", w, dy, ld, "the log-determinant inside a bin is the log of the derivative")
    eq("left-slope", w, ends[0][1], D0, "the derivative at the left knot is its slope")
    eq("right-slope", w, ends[1][1], D1, "the derivative at the right knot is its slope")
    dz = at_x(dy, z)
    mono = sign(dz) == 1
    (ctx.ok if mono else ctx.bad)(R("monotone"), w, "the derivative is positive throughout every bin (positive widths, heights, slopes)",
                                  *(() if mono else (show(dz),)))
    for which, e in (("below", 0), ("above", -1)):
        tail(ctx, R, w, which, x, fy, fl, T.elem(xp, e), T.elem(yp, e), T.elem(sl, e), "")
        tail(ctx, R, wi, which, x, gx, gl, T.elem(yp, e), T.elem(xp, e), T.div(1, T.elem(sl, e)), "inverse-")
    if good and mono:
        inverse(ctx, R, wi, x, Xin, Lii, Rg, yz, z, ldz)
    else:
        ctx.und(R("inverse"), wi, "not decided: the forward map is not the stated spline")
    knots(ctx, R, w, xp, yp, sl)


def tail(ctx, R, w, which, x, vals, logs, thr, at, slope, pre):
    t, val = vals[which]
    t2, ld = logs[which]
    nm = lambda s: R(f"{pre}{which}.{s}")
    ctx.same(nm("threshold"), w, t, thr, f"the {which} region ends at the outermost knot")
    ctx.same(nm("log-det.threshold"), w, t2, thr, f"the log-determinant changes region at the same point")
    want = T.add(at, T.mul(slope, T.sub(x, thr)))
    ctx.same(nm("value"), w, val, want, "outside, the spline continues linearly from its outermost knot with its slope")
    ctx.same(nm("log-det"), w, ld, T.log(slope), "outside, the log-determinant is the log of the slope")


def inverse(ctx, R, w, x, Xin, Lii, Rg, y, z, ld):
    """Xin(Y(x)) = x and exp(Lii(Y(x))) * exp(L(x)) = 1, on every selected branch"""
    n = 0
    for cs, t in branches(mk("pair", Xin, Lii)):
        xi, li = t.args
        roots = []
        skip = False
        alg = Rg.alg(x, y)
        for u in T.walk(t):
            if u.op == "poly":
                for m, _ in u.args[0]:
                    for a, e in m:
                        if e.denominator == 2 and a not in roots:
                            roots.append(a)
            elif u.op == "sqrt" and u.args[0] not in roots:
                roots.append(u.args[0])
        conds = []
        for c, v in cs:
            e, strict = cond_expr(c, alg)
            s = sign(e)
            if s:            # decided for every point of the range
                if not holds(s, strict, v):
                    skip = True
            else:
                conds.append((e, v))
        if skip:
            continue
        n += 1
        name = "inverse" if not conds else "inverse.branch"
        try:
            for r in roots:
                E = root(alg(r))
                if E is None:
                    raise Odd("a square root is not that of a perfect square of definite sign on the image of the bin")
                alg.roots[r] = E
            got, lgot = alg(xi), alg.exp_of(li)
        except Clamped as e:
            ctx.bad(R("clamp"), w, str(e))
            continue
        except Odd as e:
            ctx.und(R(name), w, str(e))
            continue
        except Foreign as e:
            ctx.und(R(name), w, f"the inverse uses {txt(e.args[0], 200)}")
            continue
        g1 = got == z
        (ctx.ok if g1 else ctx.bad)(R(name), w, "inverse(forward(x)) = x inside every bin" +
                                    (f" (side {conds[0][1]} of one sign condition)" if conds else ""),
                                    *(() if g1 else (show(got), show(z))))
        g2 = lgot * ld == 1
        (ctx.ok if g2 else ctx.bad)(R("inverse-log-det"), w, "inside, the inverse reports minus the forward log-determinant",
                                    *(() if g2 else (show(lgot * ld), show(K(1)))))
        if g1:
            nonzero(ctx, R, w, xi, alg, roots, conds)
    if not n:
        ctx.und(R("inverse"), w, "no branch of the inverse applies")


def cond_expr(c, alg):
    neg = False
    while isinstance(c, Term) and c.op == "not":
        c, neg = c.args[0], not neg
    if not (isinstance(c, Term) and c.op in ("le0", "lt0")):
        raise Odd(f"inverse condition {txt(c, 120)}")
    e = alg(c.args[0])
    return (-e if neg else e), (c.op == "lt0") != neg


def holds(s, strict, v):
    """truth of e<0 / e<=0 agrees with v when e has sign s"""
    return (s < 0) == v


def nonzero(ctx, R, w, t, alg, roots, conds):
    """no division by something that can vanish where the branch applies"""
    dens = []
    for u in T.walk(t):
        if u.op == "poly":
            for m, _ in u.args[0]:
                for a, e in m:
                    if e < 0 and a not in dens:
                        dens.append(a)
    for d in dens:
        e = alg(d)
        ok = sign(e) in (1, -1)
        for ce, v in conds:
            # ce < 0 (v) or ce >= 0 (not v), up to equality
            for al in (1, -1, 2, -2, sp.Rational(1, 2), -sp.Rational(1, 2), 4, -4):
                rest = e - K(al) * ce
                s = sign(rest)
                if s in (1, -1) and s == (1 if (al > 0) != v else -1):
                    ok = True
        (ctx.ok if ok else ctx.bad)(R("inverse.no-division-by-zero"), w, "what the inverse divides by cannot vanish where it is used",
                                    *(() if ok else (d,)))


def strip(t):
    while isinstance(t, Term) and t.op in ("cast", "stop"):
        t = t.args[0]
    return t


def bare(t):
    return T.expand(t, lambda u: bare(u.args[0]) if u.op in ("cast", "stop") and isinstance(u.args[0], Term) else
                    (u.args[0] if u.op in ("cast", "stop") else None)) if isinstance(t, Term) else t


def knots(ctx, R, w, xp, yp, sl):
    """knots increase from range_min to range_max; slopes are positive; one slope per knot"""
    for nm, arr in (("x", xp), ("y", yp)):
        rule = R(f"knots.{nm}")
        if not (isinstance(arr, Term) and arr.op == "concat" and len(arr.args[0]) == 3):
            ctx.und(rule, w, f"knots are not first, interior, last: {txt(arr, 160)}")
            continue
        lo, mid, hi = bare(T.elem(arr, 0)), arr.args[0][1], bare(T.elem(arr, -1))
        cs = [u for u in T.walk(mid) if u.op == "cumsum"]
        if len(cs) != 1:
            ctx.und(rule, w, f"interior knots are not a running sum: {txt(mid, 160)}")
            continue
        c = cs[0]
        start = bare(T.sub(mid, c))
        if T.contains(start, bare(c)):
            ctx.und(R(f"knots.{nm}.start"), w, f"where the running sum starts is not found: {txt(start, 160)}")
        else:
            ctx.same(R(f"knots.{nm}.start"), w, start, lo, "interior knots start from the first knot")
        src = c.args[0]
        if not (isinstance(src, Term) and src.op == "slice"):
            ctx.und(rule, w, f"running sum over {txt(src, 160)}")
            continue
        bins, b0, st, cnt = src.args[:4]
        nb = T.length(bins)
        ctx.same(R(f"knots.{nm}.count"), w, (b0, st, T.sub(nb, cnt)), (0, 1, 1), "all bins but the last are summed")
        sm = [u for u in T.walk(bins) if u.op == "softmax"]
        if len(sm) != 1:
            ctx.und(rule, w, f"bin sizes are not an affine map of one softmax: {txt(bins, 160)}")
            continue
        k = T.fresh("b", 0)
        row = T.elem(bins, k)
        s = T.elem(sm[0], k)
        B = T.subst(row, {s: 0})
        A = T.sub(T.subst(row, {s: 1}), B)
        n = T.length(sm[0])
        tot = T.add(A, T.mul(n, B)) if n is not None else None
        ctx.same(R(f"knots.{nm}.total"), w, bare(tot), T.sub(hi, lo), "bin sizes add up to the distance between the first and the last knot")
        good = not T.contains(B, s) and isinstance(bare(B), Term) and T.same(bare(B), mk("attr", SELF, "_min_bin_size"))
        ctx.true(R(f"knots.{nm}.minimum"), w, good, "no bin is smaller than the configured minimum", B)
        ctx.same(R(f"knots.{nm}.range"), w, (lo, hi), (mk("attr", SELF, "_range_min"), mk("attr", SELF, "_range_max")),
                 "the knots span the configured range")
    k = T.fresh("b", 0)
    s = bare(T.elem(sl, k))
    ok, odd = True, False
    for m, c in T.to_poly(s).items():
        if c <= 0 or any(not (a.op in ("softplus", "exp", "sigmoid") or a is mk("attr", SELF, "_min_knot_slope")) for a, e in m):
            ok = False
            odd |= any(a.op not in ("elem", "attr", "softplus", "exp", "sigmoid", "log", "len") for a, e in m)
    if odd:
        ctx.und(R("slopes"), w, f"the sign of the knot slopes is not decided: {txt(s, 160)}")
    else:
        ctx.true(R("slopes"), w, ok, "knot slopes are positive", s)
