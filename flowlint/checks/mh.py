"""Metropolis-Hastings structure of a kernel's result terms."""
from .. import terms as T
from ..terms import Term, mk


class Accept:
    """accepted  <=>  log u < ratio"""

    def __init__(self, ratio, key, strict, nan_safe, draw):
        self.ratio, self.key, self.strict, self.nan_safe, self.draw = ratio, key, strict, nan_safe, draw


def strip_min(r):
    if isinstance(r, Term) and r.op == "min":
        rest = [x for x in r.args[0] if T.const_of(x) != 0]
        if len(rest) == 1 and len(rest) < len(r.args[0]):
            return rest[0]
    return r


def log_of(e):
    """log of an acceptance probability"""
    if isinstance(e, Term) and e.op == "min":
        rest = [x for x in e.args[0] if T.const_of(x) != 1]
        if len(rest) == 1 and len(rest) < len(e.args[0]):
            return T.log(rest[0])
    l = T.log(e)
    return strip_min(l)


def split_accept(acc):
    """-> Accept, or a string saying why the term is not such a test"""
    if not isinstance(acc, Term):
        return "the acceptance decision is a constant"
    neg = False
    t = acc
    while t.op == "cast":
        t = t.args[0]
    if t.op == "not":
        neg, t = True, t.args[0]
    if t.op == "rnd" and t.args[0] == "bernoulli":
        return Accept(log_of(t.args[3][0] if isinstance(t.args[3], tuple) else t.args[3]), t.args[1],
                      True, not neg, t) if not neg else "negated bernoulli draw"
    if t.op not in ("lt0", "le0"):
        return f"the acceptance decision is not a comparison ({t.op})"
    p, strict = t.args[0], t.op == "lt0"
    if neg:
        p, strict = T.neg(p), not strict
    d = T.to_poly(p)
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if a.op == "log" and isinstance(a.args[0], Term) and a.args[0].op == "rnd" and a.args[0].args[0] == "uniform":
            if a.args[0].args[3:] and not str(a.args[0].args[3]).startswith("@"):
                return "the uniform draw does not range over (0, 1)"
            rest = T.sub(p, T.mul(c, a))
            if c < 0:
                return "accepts when the uniform draw is ABOVE the ratio"
            return Accept(strip_min(T.div(T.neg(rest), c)), a.args[0].args[1], strict, not neg, a.args[0])
        if a.op == "rnd" and a.args[0] == "exponential":
            rest = T.sub(p, T.mul(c, a))
            if c > 0:
                return "accepts when the exponential draw is BELOW minus the ratio"
            return Accept(strip_min(T.div(T.neg(rest), -c)), a.args[1], strict, not neg, a)
        if a.op == "rnd" and a.args[0] == "uniform":
            if a.args[3:] and not str(a.args[3]).startswith("@"):
                return "the uniform draw does not range over (0, 1)"
            rest = T.sub(p, T.mul(c, a))
            if c < 0:
                return "accepts when the uniform draw is ABOVE the ratio"
            return Accept(log_of(T.div(T.neg(rest), c)), a.args[1], strict, not neg, a)
    return "no uniform draw in the acceptance decision"


def branches(t, acc):
    """(value if accepted, value if rejected)"""
    base = acc.args[0] if isinstance(acc, Term) and acc.op == "not" else acc
    flip = base is not acc
    hi, lo = T.assume(t, base, not flip), T.assume(t, base, flip)
    return hi, lo


def draws(t, kind=None):
    return [u for u in T.walk(t) if u.op == "rnd" and (kind is None or u.args[0] == kind)]


# ---------------------------------------------------------------- carried values

def step_of(u):
    """value of the carried quantity u = pre(loop, k, i) at iteration i+1"""
    lp, k, i = u.args
    phis, inits, nexts, ys, idx, n, rev = lp.args
    mp = {p: T.pre(lp, j, i) for j, p in enumerate(phis)}
    mp[idx] = i
    return T.subst(nexts[k], mp)


def init_of(u):
    return u.args[0].args[1][u.args[1]]


# ---------------------------------------------------------------- undefined and zero densities

NAN_OPS = ("isnan", "isfinite", "isinf", "nan_to_num")


def real(t):
    """t on real numbers only: what guards against undefined values drops out"""
    def f(x):
        if x.op in ("isnan", "isinf") and x is not t:
            return False
        if x.op == "isfinite":
            return True
        if x.op == "nan_to_num":
            return T.expand(x.args[0], f) if isinstance(x.args[0], Term) else x.args[0]
        return None
    return T.expand(t, f) if isinstance(t, Term) else t


def guarded(t):
    return any(u.op in NAN_OPS for u in T.walk(t))


def special(t, at):
    """value of t when the terms in `at` are 'nan', '-inf' or '+inf':
       True / False / 'bool' for conditions; 'nan' / '-inf' / '+inf' / 'num' (an ordinary number) / None"""
    memo = {}

    def flip(v):
        return {"-inf": "+inf", "+inf": "-inf"}.get(v, v)

    def mono(m, c):
        v, sign = "num", True
        for a, k in m:
            x = go(a)
            if x == "nan" or x is None:
                return x
            if x in ("-inf", "+inf"):
                if k != 1 or v != "num":
                    return None
                v = x
            else:
                sign = False
        if v == "num":
            return v
        return (flip(v) if c < 0 else v) if sign else None

    def go(x):
        if isinstance(x, bool):
            return x
        if not isinstance(x, Term):
            return "num"
        if x in at:
            return at[x]
        if x not in memo:
            memo[x] = None
            memo[x] = rule(x)
        return memo[x]

    def rule(x):
        if not any(T.contains(x, a) for a in at):
            return "num"
        d = T.to_poly(x)
        if not (len(d) == 1 and next(iter(d)) == ((x, 1),)):
            vs = {mono(m, c) for m, c in d.items()}
            if "nan" in vs or {"-inf", "+inf"} <= vs:
                return "nan"
            if None in vs:
                return None
            return next((v for v in ("-inf", "+inf") if v in vs), "num")
        o, a = x.op, x.args
        if o in ("lt0", "le0"):
            v = go(a[0])
            return {"nan": False, "+inf": False, "-inf": True}.get(v, "bool")
        if o == "not":
            v = go(a[0])
            return (not v) if isinstance(v, bool) else "bool"
        if o in ("and", "or"):
            vs = [go(y) if isinstance(y, Term) else y for y in (a[0] if isinstance(a[0], tuple) else a)]
            stop = o == "or"
            if any(v is stop for v in vs):
                return stop
            return (not stop) if all(v is (not stop) for v in vs) else "bool"
        if o in ("isnan", "isfinite", "isinf"):
            v = go(a[0])
            if v is None:
                return "bool"
            return {"isnan": v == "nan", "isfinite": v == "num", "isinf": v in ("-inf", "+inf")}[o]
        if o == "nan_to_num":
            return "num"
        if o == "sel":
            c = go(a[0])
            if isinstance(c, bool):
                return go(a[1] if c else a[2])
            p, q = go(a[1]), go(a[2])
            return p if p == q and type(p) is type(q) else ("bool" if {p, q} <= {True, False, "bool"} else None)
        if o in ("min", "max", "clip"):
            vs = [go(y) for y in (a[0] if isinstance(a[0], tuple) else a)]
            if "nan" in vs:
                return "nan"
            if o == "min" and "-inf" in vs or o == "max" and "+inf" in vs:
                return "-inf" if o == "min" else "+inf"
            return None if None in vs else "num"
        if o == "exp":
            v = go(a[0])
            return "num" if v == "-inf" else v
        if o == "cast":
            return go(a[0])
        return None
    return go(t)
