"""Hash-consed value terms with a normal form.

Every value the analysis computes is a *value number*: a term in a normal form,
so that two program expressions that always compute the same value (under the
algebra below) are the same Python object.  Arithmetic is kept as polynomials
over opaque atoms with rational coefficients and exponents; everything else is
an uninterpreted operator whose smart constructor applies a few identities.

The algebra treats floats as reals and assumes arguments of log / fractional
powers are positive.  Boolean negation is NOT pushed through comparisons:
not(a <= b) and b < a are different terms, because they differ on NaN.
"""
from fractions import Fraction
from functools import lru_cache

_TABLE = {}
_COUNT = [0]


class Term:
    __slots__ = ("op", "args", "uid", "_fv", "_maxbv", "_taint")

    def __repr__(self):
        return show(self)

    # identity semantics: hash-consing makes == the same as `is`


def mk(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        _COUNT[0] += 1
        t.uid = _COUNT[0]
        t._fv = t._maxbv = t._taint = None
        _TABLE[key] = t
    return t


def _k(a):
    # 1, 1.0 and True must not be confused inside raw (non-arithmetic) arguments
    if isinstance(a, (bool, int, float)):
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return ("tuple",) + tuple(_k(x) for x in a)
    return a


_FRESH = [0]


def fresh(prefix="v", r=None):
    _FRESH[0] += 1
    t = mk("var", f"{prefix}#{_FRESH[0]}")
    if r is not None:
        RANK[t] = r
    return t


def sym(name):
    return mk("var", name)


RANK = {}   # term -> array rank, when known
LEN = {}    # term -> list of dimension terms, when known


def with_rank(t, r):
    RANK[t] = r
    return t


# ------------------------------------------------------------------ polynomials

def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if x != x or x in (float("inf"), float("-inf")):
        return None
    return Fraction(repr(x))


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


NAN = mk("nan")
INF = mk("inf")


def to_poly(v):
    """-> dict mono -> Fraction ; mono is a sorted tuple of (atom, exponent)."""
    if isinstance(v, bool):
        return {(): Fraction(int(v))} if v else {}
    if isinstance(v, (int, float, Fraction)):
        f = frac(v)
        if f is None:
            if v != v:
                return {((NAN, Fraction(1)),): Fraction(1)}
            return {((INF, Fraction(1)),): Fraction(1 if v > 0 else -1)}
        return {(): f} if f else {}
    if isinstance(v, Term):
        if v.op == "poly":
            return dict(v.args[0])
        return {((v, Fraction(1)),): Fraction(1)}
    raise TypeError(f"not arithmetic: {v!r}")


def mono_key(m):
    return tuple((a.uid, e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return int(c) if c.denominator == 1 else c
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: mono_key(mc[0]))))


def const_of(v):
    """Fraction value of a constant, else None"""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, float, Fraction)):
        return frac(v)
    return None


def add(*vs):
    d = {}
    for v in vs:
        for m, c in to_poly(v).items():
            d[m] = d.get(m, 0) + c
    return _push(from_poly(d))


def neg(v):
    return mul(-1, v)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    e = {}
    expo = []
    for a, k in m1 + m2:
        if a.op == "exp":
            expo.append((a.args[0], k))
        else:
            e[a] = e.get(a, 0) + k
    extra = 1
    out = []
    polyfix = []
    for a, k in e.items():
        if k == 0:
            continue
        if a.op == "poly" and k.denominator == 1 and k > 0:
            polyfix.append((a, int(k)))
        else:
            out.append((a, k))
    if expo:
        tot = add_raw(*[mul_raw(p, k) for p, k in expo])
        if tot != 0:
            out.append((_expatom(tot), Fraction(1)))
    out.sort(key=lambda ak: ak[0].uid)
    return tuple(out), polyfix


def _expatom(p):
    return mk("exp", p)


def add_raw(*vs):
    d = {}
    for v in vs:
        for m, c in to_poly(v).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def mul_raw(a, b):
    return from_poly(_pmul(to_poly(a), to_poly(b)))


def _pmul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m, fix = m2, []
            elif not m2:
                m, fix = m1, []
            else:
                m, fix = _mono_mul(m1, m2)
            if fix:
                r = {m: c1 * c2}
                for a, k in fix:
                    for _ in range(k):
                        r = _pmul(r, to_poly(a))
                for mm, cc in r.items():
                    d[mm] = d.get(mm, 0) + cc
            else:
                d[m] = d.get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}


def mul(*vs):
    r = {(): Fraction(1)}
    for v in vs:
        r = _pmul(r, to_poly(v))
    return _push(from_poly(r))


def power(b, e):
    """b ** e for constant e"""
    ce = const_of(e)
    if ce is None:
        return mk("pow", b, e)
    if ce == 0:
        return 1
    if ce == 1:
        return b
    cb = const_of(b)
    if cb is not None:
        if ce.denominator == 1 and (cb != 0 or ce > 0):
            r = cb ** int(ce)
            return int(r) if r.denominator == 1 else r
        if cb == 1:
            return 1
        if cb == 0:
            return 0 if ce > 0 else mk("pow", b, e)
        # exact root?
        import math
        if cb > 0 and ce.denominator == 2:
            n, d = math.isqrt(cb.numerator), math.isqrt(cb.denominator)
            if n * n == cb.numerator and d * d == cb.denominator:
                r = Fraction(n, d) ** ce.numerator
                return int(r) if r.denominator == 1 else r
        return from_poly({((mk("num", cb), ce),): Fraction(1)})
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if ce.denominator == 1 or (c > 0 and all(
                not (k.denominator == 1 and k % 2 == 0) for _, k in m)):
            r = {(): Fraction(1)}
            out = []
            for a, k in m:
                if a.op == "exp":
                    out.append((_expatom(mul_raw(a.args[0], k * ce)), Fraction(1)))
                elif a.op == "poly" and (k * ce).denominator == 1 and k * ce > 0:
                    r = _pmul(r, to_poly(power(a, k * ce)))
                else:
                    out.append((a, k * ce))
            out.sort(key=lambda ak: ak[0].uid)
            r = _pmul(r, {tuple(out): Fraction(1)})
            cc = power(c, ce)
            return _push(from_poly(_pmul(r, to_poly(cc))))
        return from_poly({((b if b.op == "poly" else from_poly(p), ce),): Fraction(1)})
    if ce.denominator == 1 and 0 < ce <= 6:
        r = {(): Fraction(1)}
        for _ in range(int(ce)):
            r = _pmul(r, p)
        return _push(from_poly(r))
    # pull a common monomial factor and the leading coefficient out of the base
    lead = min(p.items(), key=lambda mc: mono_key(mc[0]))[1]
    if ce.denominator == 1:
        q = {m: c / lead for m, c in p.items()}
        if ce.denominator == 1 and ce < -1:
            pass
        return from_poly(_pmul({((from_poly(q), ce),): Fraction(1)}, {(): lead ** int(ce)}))
    al = abs(lead)
    q = {m: c / al for m, c in p.items()}
    return from_poly(_pmul({((from_poly(q), ce),): Fraction(1)}, to_poly(power(al, ce))))


def div(a, b):
    return mul(a, power(b, -1))


def exp(v):
    if const_of(v) == 0:
        return 1
    # exp(a + k*log b) = exp(a) * b**k
    p = to_poly(v)
    rest, fac = {}, []
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            fac.append((m[0][0].args[0], c))
        else:
            rest[m] = c
    r = from_poly(rest)
    out = 1 if r == 0 else _expatom(r)
    for m, c in rest.items():
        # exp(x - logsumexp(x)) = softmax(x)
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "logsumexp":
            x = m[0][0].args[0]
            if rank(x) == 1 and same(from_poly({k: v for k, v in rest.items() if k != m}), x):
                out = mk("softmax", x, 0)
    for b, c in fac:
        out = mul(out, power(b, c))
    return out


def log(v):
    c = const_of(v)
    if c is not None:
        if c == 1:
            return 0
        return mk("log", v)
    if isinstance(v, Term) and v.op == "sel":
        pass
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        parts = []
        if c != 1:
            if c < 0:
                return mk("log", v)
            parts.append(mk("log", int(c) if c.denominator == 1 else c))
        for a, k in m:
            if a.op == "exp":
                parts.append(mul(a.args[0], k))
            elif a.op == "prod" and k == 1:
                parts.append(sum_(log(a.args[0]), a.args[1]))
            elif a.op == "softmax":
                parts.append(mul(k, mk("log", a)))
            else:
                parts.append(mul(k, mk("log", a)))
        return add(*parts)
    lead = min(p.items(), key=lambda mc: mono_key(mc[0]))[1]
    if lead > 0 and lead != 1:
        return add(mk("log", int(lead) if lead.denominator == 1 else lead),
                   log(from_poly({m: c / lead for m, c in p.items()})))
    return mk("log", v)


ODD = {"tanh", "sin", "arctan", "sinh", "sign", "erf"}
EVEN = {"cos", "cosh", "abs"}
ZERO_AT_ZERO = {"tanh", "sin", "arctan", "sinh", "erf", "relu", "abs", "sign"}


def unary(name, v):
    c = const_of(v)
    if c == 0 and name in ZERO_AT_ZERO:
        return 0
    if (name in ODD or name in EVEN) and isinstance(v, Term):
        p = to_poly(v)
        lead = min(p.items(), key=lambda mc: mono_key(mc[0]))[1]
        if lead < 0:
            r = unary(name, neg(v))
            return neg(r) if name in ODD else r
    return mk(name, v)


# ------------------------------------------------------------------ ranks / shapes

ELEMENTWISE = ODD | EVEN | {"exp", "log", "relu", "softplus", "sigmoid", "stop", "isfinite",
                            "isnan", "isinf", "floor", "ceil", "round", "clip", "cast", "max", "min"}


def rank(v):
    if not isinstance(v, Term):
        if isinstance(v, tuple):
            return None
        return 0
    r = RANK.get(v)
    if r is not None:
        return r
    r = _rank(v)
    if r is not None:
        RANK[v] = r
    return r


TUPLES = {}     # (object, method) modelled by a contract -> ranks of the arrays it returns
SHAPES = {}     # (op, name) -> function(term) -> dims, for operators modelled by a contract


def _contract_dims(v):
    if v.op == "app":
        return RANK.get(("ret", v.args[0]))
    f = SHAPES.get((v.op, v.args[1])) if v.op == "mcall" else SHAPES.get((v.op, None))
    return f(v) if f else None


def _rank(v):
    op = v.op
    if op in ("app", "mcall", "call"):
        d = _contract_dims(v)
        if d is not None:
            return d if isinstance(d, int) else len(d)
    if op == "bv":
        return v.args[1]
    if op == "poly":
        rs = []
        for m, _ in v.args[0]:
            for a, _e in m:
                rs.append(rank(a))
        return None if any(x is None for x in rs) else max(rs, default=0)
    if op == "cast":
        return rank(v.args[0])
    if op in ("exp", "log") or op in ELEMENTWISE:
        rs = [rank(a) for a in v.args if not isinstance(a, str)]
        return None if any(x is None for x in rs) else max(rs, default=0)
    if op in ("inf", "nan", "num", "pi", "len", "ndim", "floordiv", "ceildiv", "mod", "hi", "lo"):
        return 0
    if op == "sel":
        a, b = rank(v.args[1]), rank(v.args[2])
        if a is None or b is None:
            return None
        c = rank(v.args[0])
        return max(a, b, c or 0)
    if op in ("lt0", "le0", "eq0", "not"):
        return rank(v.args[0])
    if op in ("and", "or"):
        rs = [rank(a) for a in v.args[0]]
        return None if any(x is None for x in rs) else max(rs, default=0)
    if op == "comp":
        r = rank(v.args[1])
        return None if r is None else r + 1
    if op == "elem":
        b = v.args[0]
        if isinstance(b, Term) and b.op == "mcall" and b.args[:2] in TUPLES:
            k, rs = const_of(v.args[1]), TUPLES[b.args[:2]]
            return rs[int(k)] if k is not None and 0 <= k < len(rs) else None
        r = rank(v.args[0])
        return None if r is None or r < 1 else r - 1
    if op in ("slice", "flip", "cumsum", "softmax"):
        return rank(v.args[0])
    if op in ("sum", "mean", "prod", "any", "all", "amax", "amin", "logsumexp"):
        if v.args[1] is None:
            return 0
        r = rank(v.args[0])
        return None if r is None else r - 1
    if op == "rnd":
        sh = v.args[2]
        if isinstance(sh, tuple):
            return len(sh)
        if isinstance(sh, Term) and sh.op == "shape":
            return rank(sh.args[0])
        return None
    if op == "diag":
        r = rank(v.args[0])
        return {1: 2, 2: 1}.get(r)
    if op in ("full", "arr"):
        if op == "arr":
            rs = [rank(x) for x in v.args[0]]
            return None if not rs or rs[0] is None else rs[0] + 1
        sh = v.args[0]
        if isinstance(sh, tuple):
            return len(sh)
        return None
    if op == "dot":
        rs = [rank(x) for x in v.args[0]]
        if any(x is None for x in rs):
            return None
        ends = [x for x in (rs[0], rs[-1])]
        return sum(1 for x in ends if x == 2)
    if op == "grad":
        return rank(v.args[1])
    if op == "mvnlogpdf":
        return 0
    if op == "stack":
        lp, m = v.args
        r = rank(lp.args[3][m])
        return None if r is None else r + 1
    if op == "fin" or op == "pre":
        return rank(v.args[0].args[1][v.args[1]])
    if op == "flat":
        r = rank(v.args[0])
        return None if r is None else r - 1
    if op == "arange":
        return 1
    if op == "concat":
        for x in v.args[0]:
            r = rank(x)
            if r is not None:
                return r
    if op == "upd":
        return rank(v.args[0])
    if op in ("keysplit", "key"):
        return 1
    return None


def dims(v):
    """List of dimension terms of v, or None."""
    if isinstance(v, Term):
        d = LEN.get(v)
        if d is not None:
            return d
        d = _dims(v)
        if d is not None:
            LEN[v] = d
        return d
    if is_num(v):
        return []
    return None


def _dims(v):
    op = v.op
    if op in ("app", "mcall", "call"):
        d = _contract_dims(v)
        if d is not None and not isinstance(d, int):
            return d
    if op == "comp":
        d = dims(v.args[1])
        return None if d is None else [v.args[2]] + d
    if op == "stack":
        lp, m = v.args
        d = dims(lp.args[3][m])
        return None if d is None else [lp.args[5]] + d
    if op == "flat":
        d = dims(v.args[0])
        return None if d is None else [mul(d[0], d[1])] + d[2:]
    if op == "slice":
        d = dims(v.args[0])
        if d is None:
            return None
        return [v.args[3]] + d[1:] if v.args[3] is not None else None
    if op == "elem":
        d = dims(v.args[0])
        return None if not d else d[1:]
    if op == "arr" and v.args[0]:
        d = dims(v.args[0][0])
        return None if d is None else [len(v.args[0])] + d
    if op == "maskrows":
        d, k = dims(v.args[0]), rank(v.args[1])
        return None if not d or not k else [mk("len", v)] + d[k:]
    if op == "keysplit":
        return [v.args[1], 2]
    if op == "rnd" and isinstance(v.args[2], tuple):
        return list(v.args[2])
    if op == "rnd" and isinstance(v.args[2], Term) and v.args[2].op == "shape":
        return dims(v.args[2].args[0])
    if op == "full" and isinstance(v.args[0], tuple):
        return list(v.args[0])
    if op == "concat":
        ds = [dims(x) for x in v.args[0]]
        if any(not d for d in ds):
            return None
        return [add(*[d[0] for d in ds])] + ds[0][1:]
    if op in ("softmax", "cumsum", "flip") or op in ELEMENTWISE and op not in ("clip", "max", "min"):
        return dims(v.args[0])
    if op in ("sum", "mean", "prod", "any", "all", "amax", "amin") and const_of(v.args[1]) is not None:
        d, k = dims(v.args[0]), int(const_of(v.args[1]))
        return d[:k] + d[k + 1:] if d is not None and 0 <= k < len(d) else None
    if op == "arange" and const_of(v.args[0]) == 0:
        return [v.args[1]]
    if op == "sel":
        a, b = dims(v.args[1]), dims(v.args[2])
        return a if a is not None and a == b else None
    if op in ("fin", "pre"):
        return dims(v.args[0].args[1][v.args[1]])
    if op == "poly":
        best = None
        for m, _ in v.args[0]:
            for a, _e in m:
                d = dims(a)
                if d is None:
                    return None
                if best is None or _dimkey(d) < _dimkey(best):
                    best = d
        return best
    if op == "grad":
        return dims(v.args[1])
    r = rank(v)
    if r == 0:
        return []
    if r is not None and op in ("var", "attr", "app", "bv", "rnd", "mcall", "call", "dot"):
        return [mk("len", v)] + [mk("dim", v, k) for k in range(1, r)]
    return None


def _dimkey(d):
    """representative shape of a broadcast sum: highest rank, then constants, then the oldest symbol"""
    return (-len(d), tuple((x.uid if x.op != "len" or x.args[0].op == "var" else x.uid + 10 ** 9)
                           if isinstance(x, Term) else -1 if x != 1 else 10 ** 12 for x in d))


def diff(x):
    """x[1:] - x[:-1]"""
    n = length(x)
    if n is None:
        return None
    m = sub(n, 1)
    return sub(slice_(x, 1, 1, m), slice_(x, 0, 1, m))


LENGTHS = {}      # method name -> f(call, k): length of result k of an opaque call


def length(v):
    """Length of axis 0."""
    d = dims(v)
    if d:
        return d[0]
    if isinstance(v, Term) and v.op == "comp":
        return v.args[2]
    if isinstance(v, Term) and v.op == "stack":
        return v.args[0].args[5]
    if isinstance(v, Term) and v.op == "slice" and v.args[3] is not None:
        return v.args[3]
    if isinstance(v, Term) and v.op == "arr":
        return len(v.args[0])
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, Term) and v.op in ("flip", "cast", "setax", "dus", "softmax", "cumsum", "dyn"):
        return length(v.args[0])
    if isinstance(v, Term) and v.op == "elem" and isinstance(v.args[0], Term) and v.args[0].op == "mcall":
        f = LENGTHS.get(v.args[0].args[1])
        n = f(v.args[0], v.args[1]) if f else None
        if n is not None:
            return n
    return mk("len", v)


# ------------------------------------------------------------------ booleans

def _scale(p):
    """divide a polynomial by the absolute value of its leading coefficient"""
    d = to_poly(p)
    if not d:
        return 0, 1
    ks = [m for m in d if m != ()] or [()]
    lead = d[min(ks, key=mono_key)]
    return from_poly({m: c / abs(lead) for m, c in d.items()}), (1 if lead > 0 else -1)


def cmp_lt(a, b):
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        return c < 0
    return mk("lt0", _scale(p)[0])


def cmp_le(a, b):
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        return c <= 0
    return mk("le0", _scale(p)[0])


def cmp_eq(a, b):
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return a == b
        x, y = sorted([a, b], key=lambda z: (not isinstance(z, Term), z.uid if isinstance(z, Term) else 0))
        return mk("eqv", x, y)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(b, bool) and isinstance(a, Term):
        return a if b else not_(a)
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        return c == 0
    q, s = _scale(p)
    if s < 0:
        q = neg(q)
    return mk("eq0", q)


def not_(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, Term) and a.op == "not":
        return a.args[0]
    if not isinstance(a, Term):
        return not a
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if x is True or (is_num(x) and x):
            continue
        if x is False or (is_num(x) and not x):
            return False
        if isinstance(x, Term) and x.op == "and":
            out.extend(x.args[0])
        else:
            out.append(x)
    out = sorted(set(out), key=lambda t: t.uid)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for o in out:
        if not_(o) in out:
            return False
    return mk("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        if x is False or (is_num(x) and not x):
            continue
        if x is True or (is_num(x) and x):
            return True
        if isinstance(x, Term) and x.op == "or":
            out.extend(x.args[0])
        else:
            out.append(x)
    out = sorted(set(out), key=lambda t: t.uid)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for o in out:
        if not_(o) in out:
            return True
    return mk("or", tuple(out))


def sel(c, a, b):
    """gated merge / where / cond"""
    if isinstance(c, bool):
        return a if c else b
    if not isinstance(c, Term):
        return a if c else b
    if same(a, b):
        return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else not_(c)
    if isinstance(a, Term) and a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    if same(a, b):
        return a
    return mk("sel", c, a, b)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Term) or isinstance(b, Term):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_num(a) and is_num(b):
        return frac(a) == frac(b) if frac(a) is not None else a == b
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ sums

def sum_(v, axis=None):
    r = rank(v)
    if not isinstance(v, Term):
        return v if axis is None else mk("sum", v, axis)
    if r == 0:
        return v
    if r == 1:
        axis = None
    elif r is not None and isinstance(axis, int) and axis < 0:
        axis = axis + r
    if v.op == "stack" and (r == 1 or axis == 0):
        # the sum of what a loop emits is what it would accumulate
        phis, inits, nexts, ys, idx, n, rev = v.args[0].args
        a = with_rank(fresh("acc"), 0) if r == 1 else fresh("acc")
        lp = loop_term(list(phis) + [a], list(inits) + [0], list(nexts) + [add(a, ys[v.args[1]])], [], idx, n, rev)
        return fin(lp, len(phis))
    if v.op == "comp" and (r == 1 or axis == 0 or axis is None and r is not None) and isinstance(v.args[1], Term):
        # sum over i of a linear combination: term by term, with what does not depend on i outside
        b = fresh("e", 0)
        body, n = subst(v.args[1], {v.args[0]: b}), v.args[2]
        q = to_poly(body)
        rb = rank(body)
        if rb is not None and (len(q) > 1 or any(c != 1 for c in q.values())) and all(_mono_rank(m) == rb for m in q) \
                and all(any(b in free_vars(a) for a, _ in m) for m in q):
            return add(*[mul(c, mk("sum", comp(b, from_poly({m: Fraction(1)}), n), axis)) for m, c in q.items()])
    if v.op == "comp" and isinstance(v.args[1], Term) and (r == 1 or axis in (0, None)):
        got = emitted(v)
        if got is not None:
            return got
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        sc = [(a, k) for a, k in m if rank(a) == 0]
        ve = [(a, k) for a, k in m if rank(a) != 0]
        if ve and (sc or c != 1):
            inner = from_poly({tuple(ve): Fraction(1)})
            return mul(from_poly({tuple(sc): c}), sum_(inner, axis))
        if r == 1 and axis is None and len(ve) in (1, 2):
            # sum(a*b) of vectors is an inner product
            atoms = [a for a, k in ve for _ in range(int(k) if k.denominator == 1 and k > 0 else 99)]
            if len(atoms) == 2 and any(a.op == "dot" for a in atoms):
                return dot(*atoms)
        return mk("sum", v, axis)
    if r is not None and all(_mono_rank(m) == r for m in p):
        return add(*[sum_(from_poly({m: c}), axis) for m, c in p.items()])
    if r == 1 and all(_mono_rank(m) in (0, 1) for m in p):
        # what is the same for every entry is counted once per entry
        d = dims(v)
        if d and len(d) == 1:
            return add(*[mul(from_poly({m: c}), d[0]) if _mono_rank(m) == 0 else sum_(from_poly({m: c}), axis)
                         for m, c in p.items()])
    return mk("sum", v, axis)


def emitted(v):
    """the sum of a comprehension over the states of a loop, in either direction, as an accumulator of that loop"""
    i, body, n = v.args
    b = fresh("e", 0)
    for order in (b, sub(sub(n, 1), b)):
        t = subst(body, {i: order})
        pres = {u for u in walk(t) if u.op == "pre"}
        loops = {u.args[0] for u in pres}
        if len(loops) != 1 or any(u.args[2] is not b for u in pres):
            continue
        lp = loops.pop()
        phis, inits, nexts, ys, idx, cnt, rev = lp.args
        if not same(cnt, n) or any(b in free_vars(x) for x in lp.args[1] if isinstance(x, Term)):
            continue
        each = subst(expand(t, lambda u: phis[u.args[1]] if u.op == "pre" and u.args[0] is lp else None), {b: idx})
        a = with_rank(fresh("acc"), 0) if rank(v) == 1 else fresh("acc")
        lp = loop_term(list(phis) + [a], list(inits) + [0], list(nexts) + [add(a, each)], [], idx, n, rev)
        return fin(lp, len(phis))
    return None


def _mono_rank(m):
    rs = [rank(a) for a, _ in m]
    return None if any(x is None for x in rs) else max(rs, default=0)


def dot(*vs):
    """associative chain of matrix/vector products with scalars pulled out"""
    scal, chain = [], []
    for v in vs:
        if not isinstance(v, Term) or rank(v) == 0:
            scal.append(v)
            continue
        p = to_poly(v)
        if len(p) == 1:
            (m, c), = p.items()
            sc = [(a, k) for a, k in m if rank(a) == 0]
            ve = [(a, k) for a, k in m if rank(a) != 0]
            if ve and (sc or c != 1):
                scal.append(from_poly({tuple(sc): c}))
                v = from_poly({tuple(ve): Fraction(1)})
        if isinstance(v, Term) and v.op == "dot":
            chain.extend(v.args[0])
        else:
            chain.append(v)
    if not chain:
        return mul(*scal)
    if len(chain) == 1:
        return mul(chain[0], *scal)
    if len(chain) == 2 and rank(chain[0]) == 1 and rank(chain[1]) == 1 and not any(c.op == "dot" for c in chain):
        return mul(*scal, sum_(mul(chain[0], chain[1])))
    # a vector-matrix...-vector chain may be read in either direction only if
    # the matrices are symmetric; no such assumption is made here.
    return mul(*scal, mk("dot", tuple(chain)))


def transpose(v):
    if not isinstance(v, Term):
        return v
    if rank(v) in (0, 1):
        return v
    if v.op == "T":
        return v.args[0]
    if v.op == "dot":
        return dot(*[transpose(x) for x in reversed(v.args[0])])
    if v.op == "diag" and rank(v) == 2:
        return v
    if v.op == "eye":
        return v
    if v.op in ("inv",):
        return mk("inv", transpose(v.args[0]))
    return mk("T", v)


# ------------------------------------------------------------------ binders

def free_vars(t):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            s = frozenset()
            for x in t:
                s |= free_vars(x)
            return s
        return frozenset()
    if t._fv is None:
        if t.op in ("var", "bv"):
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in t.args:
                s |= free_vars(a)
            if t.op in ("comp", "lam"):
                s = s - {t.args[0]}
            elif t.op == "loop":
                s = s - set(t.args[0]) - {t.args[4]}
            t._fv = s
    return t._fv


def maxbv(t):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return max([maxbv(x) for x in t], default=0)
        return 0
    if t._maxbv is None:
        m = t.args[0] if t.op == "bv" else 0
        for a in t.args:
            m = max(m, maxbv(a))
        t._maxbv = m
    return t._maxbv


_SUBST_CACHE = {}


def subst(t, mp):
    """capture-avoiding (bound variables are canonical and never free outside)"""
    if not mp:
        return t
    key = tuple(sorted(((k.uid, _k(v) if not isinstance(v, Term) else v.uid) for k, v in mp.items()), key=repr))
    return _subst(t, mp, {}, frozenset(mp))


def _subst(t, mp, memo, keys):
    if isinstance(t, tuple):
        return tuple(_subst(x, mp, memo, keys) for x in t)
    if not isinstance(t, Term):
        return t
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    vkeys = [k for k in keys if k.op in ("var", "bv")]
    if len(vkeys) == len(keys) and not (free_vars(t) & keys):
        memo[t] = t
        return t
    r = rebuild(t, lambda a: _subst(a, mp, memo, keys))
    memo[t] = r
    if isinstance(r, Term) and r not in RANK and t in RANK:
        RANK[r] = RANK[t]
    return r


def rebuild(t, f):
    """Re-run the smart constructor of t on transformed arguments."""
    op = t.op
    if op == "poly":
        out = []
        for m, c in t.args[0]:
            out.append(mul(c, *[power(f(a), k) for a, k in m]))
        return add(*out)
    if op == "var" or op == "bv":
        return t
    if op == "comp":
        v = fresh("r", 0)
        body = subst(t.args[1], {t.args[0]: v})
        return comp(v, f(body), f(t.args[2]))
    if op == "lam":
        v = fresh("r")
        if rank(t.args[0]) is not None:
            RANK[v] = rank(t.args[0])
        return lam(v, f(subst(t.args[1], {t.args[0]: v})))
    if op == "loop":
        phis, inits, nexts, ys, idx, n, rev = t.args
        nv = [fresh("p") for _ in phis]
        ni = fresh("i", 0)
        mp = dict(zip(phis, nv))
        mp[idx] = ni
        for a, b in zip(phis, nv):
            if rank(a) is not None:
                RANK[b] = rank(a)
        return loop_term(nv, [f(x) for x in inits], [f(subst(x, mp)) for x in nexts],
                         [f(subst(x, mp)) for x in ys], ni, f(n), rev)
    args = [tuple(f(x) for x in a) if isinstance(a, tuple) else (f(a) if isinstance(a, Term) else a)
            for a in t.args]
    return rebuild_args(op, args)


def rebuild_args(op, args):
    if op == "exp":
        return exp(args[0])
    if op == "log":
        return log(args[0])
    if op == "pow":
        return power(args[0], args[1])
    if op in ODD or op in EVEN or op in ("relu",):
        return unary(op, args[0])
    if op == "sel":
        return sel(*args)
    if op in ("lt0", "le0"):
        return cmp_lt(args[0], 0) if op == "lt0" else cmp_le(args[0], 0)
    if op == "eq0":
        return cmp_eq(args[0], 0)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args[0])
    if op == "or":
        return or_(*args[0])
    if op == "elem":
        return elem(args[0], args[1])
    if op == "elemax":
        return elem_axis(args[0], args[1], args[2])
    if op == "slice":
        return slice_(args[0], args[1], args[2], args[3])
    if op == "flat":
        return flat(args[0], args[1])
    if op == "concat":
        return concat(args[0])
    if op == "sum":
        return sum_(args[0], args[1])
    if op == "dot":
        return dot(*args[0])
    if op == "T":
        return transpose(args[0])
    if op == "comb":
        return combine(*args)
    if op == "attr":
        return attr(args[0], args[1])
    if op == "floordiv":
        return floordiv(args[0], args[1])
    if op == "ceildiv":
        return ceildiv(args[0], args[1])
    if op == "split2":
        return split2(*args)
    if op == "mvnlogpdf":
        return mvn_logpdf(*args)
    if op == "grad":
        return grad(*args)
    if op == "concatmap":
        return mk("concatmap", *args)
    if op == "stack":
        return stack(*args)
    if op == "fin":
        return fin(*args)
    if op == "max":
        return max_(*args[0])
    if op == "min":
        return min_(*args[0])
    if op == "len":
        return length(args[0])
    if op == "cast":
        return cast(*args)
    if op == "setax":
        return set_rows(*args)
    return mk(op, *args)


def comp(v, body, n):
    """[body for v in range(n)]"""
    if isinstance(body, tuple):
        return tuple(comp(v, b, n) for b in body)
    # eta: comp(i, elem(x, i)) = x
    if isinstance(body, Term) and body.op == "elem" and body.args[1] is v and v not in free_vars(body.args[0]):
        ln = length(body.args[0])
        if same(ln, n) or n is None or (isinstance(ln, Term) and ln.op == "len"):
            return body.args[0]
    k = maxbv(body) + 1
    b = mk("bv", k, 0)
    return mk("comp", b, subst(body, {v: b}), n)


def lam(v, body):
    k = maxbv(body) + 1
    b = mk("bv", k, rank(v))
    nb = subst(body, {v: b})
    return mk("lam", b, nb)


def loop_term(phis, inits, nexts, ys, idx, n, rev):
    """canonical loop: bound phis and index are renamed to bv's"""
    k = max([maxbv(x) for x in list(nexts) + list(ys)], default=0)
    bs = [mk("bv", k + 1 + j, rank(p)) for j, p in enumerate(phis)]
    bi = mk("bv", k + 1 + len(phis), 0)
    mp = dict(zip(phis, bs))
    mp[idx] = bi
    return mk("loop", tuple(bs), tuple(inits), tuple(subst(x, mp) for x in nexts),
              tuple(subst(x, mp) for x in ys), bi, n, rev)


def _restrict(lp, roots):
    """keep only the carried values that the expressions in `roots` depend on"""
    phis, inits, nexts, ys, idx, n, rev = lp.args
    pos = {p: i for i, p in enumerate(phis)}
    need, todo = [], list(roots)
    seen = set()
    while todo:
        t = todo.pop(0)
        fs = [v for v in _order_vars(t) if v in pos]
        fs.sort(key=lambda v: _init_key(inits[pos[v]]))
        for v in fs:
            if v not in seen:
                seen.add(v)
                need.append(pos[v])
                todo.append(nexts[pos[v]])
    return need


def _init_key(x):
    """an order of carried values that does not depend on how they are named"""
    c = const_of(x)
    return (0, float(c)) if c is not None else (1, x.uid) if isinstance(x, Term) else (2, 0)


def _order_vars(t, out=None, seen=None):
    """free variables in first-occurrence order"""
    out = [] if out is None else out
    seen = set() if seen is None else seen

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, Term) or x in seen:
            return
        seen.add(x)
        if x.op in ("var", "bv"):
            out.append(x)
            return
        for a in x.args:
            go(a)
    go(t)
    return out


def stack(lp, m):
    """per-iteration outputs of a loop; a comprehension when iterations are independent"""
    phis, inits, nexts, ys, idx, n, rev = lp.args
    if lp.op == "loop" and len(ys) == 1 and m == 0:
        y = ys[0]
        if not (free_vars(y) & set(phis)):
            v = fresh("s", 0)
            return comp(v, subst(y, {idx: v}), n)
        return mk("stack", lp, 0)
    y = ys[m]
    if not (free_vars(y) & set(phis)):
        v = fresh("s", 0)
        return comp(v, subst(y, {idx: v}), n)
    need = _restrict(lp, [y])
    small = _mini(lp, need, [y])
    if len(_restrict(small, [small.args[3][0]])) < len(small.args[0]):
        return stack(mk("loop", *small.args[:3], small.args[3] + (0,), *small.args[4:]), 0)
    return mk("stack", small, 0)


def fin(lp, k):
    phis, inits, nexts, ys, idx, n, rev = lp.args
    need = _restrict(lp, [phis[k]])
    if need and need[0] == k and len(need) == len(phis) and need == list(range(len(phis))) and not ys:
        return mk("fin", lp, k)
    small = _mini(lp, need, [])
    k = need.index(k)
    need = _restrict(small, [small.args[0][k]])
    if len(need) < len(small.args[0]):       # rewriting removed a dependence
        return fin(small, k)
    return mk("fin", small, k)


def _mini(lp, need, ys):
    phis, inits, nexts, _, idx, n, rev = lp.args
    nv = []
    for j in need:
        v = fresh("p")
        if rank(phis[j]) is not None:
            RANK[v] = rank(phis[j])
        elif rank(inits[j]) is not None:
            RANK[v] = rank(inits[j])
        nv.append(v)
    ni = fresh("i", 0)
    mp = {phis[j]: v for j, v in zip(need, nv)}
    mp[idx] = ni
    return loop_term(nv, [inits[j] for j in need], [subst(nexts[j], mp) for j in need],
                     [subst(y, mp) for y in ys], ni, n, rev)


def pre(lp, k, i):
    phis, inits, nexts, ys, idx, n, rev = lp.args
    if const_of(i) == 0 and not rev:
        return inits[k]
    need = _restrict(lp, [phis[k]])
    if need == list(range(len(phis))) and not ys:
        return mk("pre", lp, k, i)
    small = _mini(lp, need, [])
    k = need.index(k)
    need = _restrict(small, [small.args[0][k]])
    if len(need) < len(small.args[0]):
        return pre(small, k, i)
    return mk("pre", small, k, i)


# ------------------------------------------------------------------ arrays

def ceildiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None and cb != 0:
        return int(-((-ca) // cb))
    if cb == 1:
        return a
    if same(a, b):
        return 1
    q = div(a, b)
    if _is_int_poly(q):
        return q
    return mk("ceildiv", a, b)


def floordiv(a, b):
    ca, cb = const_of(a), const_of(b)
    if isinstance(a, Term):
        d = to_poly(a)
        if all(c < 0 for c in d.values()):
            return neg(ceildiv(neg(a), b))
        x = add(a, 1, neg(b))           # (x + b - 1) // b
        if isinstance(b, Term) and isinstance(x, Term) and not (free_vars(x) & {b}) and len(to_poly(x)) < len(d):
            return ceildiv(x, b)
    if ca is not None and cb is not None and cb != 0:
        return int(ca // cb)
    if cb == 1:
        return a
    if same(a, b):
        return 1
    # (q*b + r)//b is left opaque unless r = 0
    if isinstance(b, Term) and isinstance(a, Term):
        q = div(a, b)
        if _is_int_poly(q):
            return q
    return mk("floordiv", a, b)


def mod(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb:
        r = ca % cb
        return int(r) if r.denominator == 1 else r
    if (rank(a) or 0) > 0 or (rank(b) or 0) > 0 or not isinstance(a, Term):
        return mk("mod", a, b)
    return sub(a, mul(b, floordiv(a, b)))


def dim(x, k):
    """Length of axis k of x (rows of equal length)."""
    if k == 0:
        return length(x)
    d = dims(x)
    if d is not None and len(d) > k:
        return d[k]
    e = elem(x, i := fresh("z", 0))
    n = dim(e, k - 1) if not (isinstance(e, Term) and e.op == "elem" and e.args[0] is x) else None
    return mk("dim", x, k) if n is None or i in free_vars(n) else n


def _is_int_poly(q):
    for m, c in to_poly(q).items():
        if c.denominator != 1:
            return False
        for a, k in m:
            if k.denominator != 1 or k < 0:
                return False
    return True


def elem(x, i):
    """x[i] along axis 0"""
    if isinstance(x, (tuple,)):
        c = const_of(i)
        if c is not None and -len(x) <= c < len(x):
            return x[int(c)]
        return mk("elem", x, i)
    if not isinstance(x, Term):
        return x
    op = x.op
    ci = const_of(i)
    if op == "arr":
        if ci is not None and -len(x.args[0]) <= ci < len(x.args[0]):
            return x.args[0][int(ci)]
    if op in ("dvalues", "dkeys", "ditems"):
        # entries of a dictionary in its order
        b = x.args[0]
        kv = mk("dkey", b, i), mk("dval", b, i)
        return {"dkeys": kv[0], "dvalues": kv[1], "ditems": mk("tup", kv)}[op]
    if op == "newax":
        return x.args[0]              # the only entry, or the one broadcast along the axis
    if op == "T" and rank(x.args[0]) == 2:
        v = fresh("tr", 0)
        return comp(v, elem(elem(x.args[0], v), i), length(x.args[0]))
    if op == "comp":
        if ci is not None and ci < 0:
            i = add(x.args[2], ci)
        return subst(x.args[1], {x.args[0]: i})
    if op == "stack":
        lp, m = x.args
        phis, inits, nexts, ys, idx, n, rev = lp.args
        if ci is not None and ci < 0:
            i = add(n, ci)
        mp = {p: pre(lp, k, i) for k, p in enumerate(phis)}
        for k, p in enumerate(phis):
            if rank(inits[k]) is not None:
                RANK[mp[p]] = rank(inits[k])
        mp[idx] = i
        return subst(ys[m], mp)
    if op == "slice":
        base, lo, st, n = x.args
        if ci is not None and ci < 0:
            if n is None:
                return mk("elem", x, i)
            i = add(n, ci)
        return elem(base, add(lo, mul(i, st)))
    if op == "flat":
        n = x.args[1]
        if n is not None and ci is None or (ci is not None and ci >= 0 and n is not None):
            h = floordiv(i, n)
            return elem(elem(x.args[0], h), sub(i, mul(n, h)))
    if op == "split2":
        base, a, b = x.args
        if ci is not None and ci < 0:
            i = add(a, ci)
        lo = mul(i, b)
        return slice_(base, lo, 1, b)
    if op == "arange":
        lo, hi, st = x.args
        if ci is None or ci >= 0:
            return add(lo, mul(i, st))
    if op == "flip" and x.args[1] == 0:
        n = length(x.args[0])
        return elem(x.args[0], sub(sub(n, 1), i))
    if op == "concat" and ci is not None:
        parts = x.args[0]
        if ci >= 0:
            off = Fraction(0)
            for p_ in parts:
                n = const_of(length(p_))
                if n is None:
                    break
                if ci < off + n:
                    return elem(p_, int(ci - off))
                off += n
        else:
            n = const_of(length(parts[-1]))
            if n is not None and -ci <= n:
                return elem(parts[-1], int(n + ci))
    elif op == "concat":
        tail, n = const_of(sub(length(x), i)), const_of(length(x.args[0][-1]))      # counted from the end
        if tail is not None and n is not None and 0 < tail <= n:
            return elem(x.args[0][-1], int(n - tail))
        off = 0
        for p_ in x.args[0]:
            n, d = length(p_), sub(i, off)
            cd, cn = const_of(d), const_of(n)
            if cd is not None and cn is not None and 0 <= cd < cn:
                return elem(p_, int(cd))
            past = const_of(sub(d, n))
            if past is None or past < 0:
                break
            off = add(off, n)
    if op in ("full",):
        sh, val = x.args
        if isinstance(sh, tuple) and not isinstance(val, (tuple,)):
            return val if len(sh) == 1 else mk("full", sh[1:], val)
    if op == "setax":
        # base.at[idx].set(val) along axis 0
        base, k, val = x.args
        ck = const_of(k)
        if ci is not None and ck is not None:
            if ci == ck:
                return val
            if (ci >= 0) == (ck >= 0):
                return elem(base, i)
            n = const_of(length(base))
            if n is not None:
                return val if (ci % n) == (ck % n) else elem(base, i)
            # 0 and -1 differ as soon as there are two rows
            return elem(base, i) if {ci, ck} == {Fraction(0), Fraction(-1)} else mk("elem", x, i)
        if same(i, k):
            return val
        if ci is None and ck is None:
            d = const_of(sub(i, k))
            if d is not None and d != 0:        # two indices from the front that differ
                return elem(base, i)
    if op == "dus" and x.args[3] == 0:
        base, upd, start, _ = x.args
        d = const_of(sub(i, start))
        m = length(upd)
        if const_of(start) == 0 and m is not None and same(m, length(base)):
            return elem(upd, i)                 # the whole array is replaced
        if d is not None and m is not None and (ci is None) == (const_of(start) is None):
            if 0 <= d and const_of(m) is not None and d < const_of(m):
                return elem(upd, int(d))
            if d < 0 and (ci is None or ci >= 0) or const_of(m) is not None and d >= const_of(m):
                return elem(base, i)
        if d is not None and d < 0 and (ci is None or ci >= 0):
            return elem(base, i)
        if m is not None:
            n = length(base)
            q = add(n, ci) if ci is not None and ci < 0 and n is not None else i
            past = const_of(sub(q, add(start, m))) if ci is None or ci >= 0 or n is not None else None
            if past is not None and past >= 0:
                return elem(base, i)
    if op == "sel":
        if rank(x.args[0]) == 0:
            return sel(x.args[0], elem(x.args[1], i), elem(x.args[2], i))
        ra, rb, rc = rank(x.args[1]), rank(x.args[2]), rank(x.args[0])
        if ra is not None and ra == rb == rc:
            return sel(elem(x.args[0], i), elem(x.args[1], i), elem(x.args[2], i))
        top = max([q for q in (ra, rb, rc) if q is not None], default=0)
        if top and {ra, rb, rc} <= {0, top}:
            return sel(*[elem(q, i) if k == top else q for q, k in zip(x.args, (rc, ra, rb))])
    if op == "comb":
        a, b = x.args
        return combine(elem(a, i), b)
    if op == "dyn":
        return mk("dyn", elem(x.args[0], i))
    if op == "poly":
        r = rank(x)
        if r is not None and r >= 1:
            ok = True
            for m, c in x.args[0]:
                for a, _ in m:
                    if rank(a) is None:
                        ok = False
            if ok:
                return add(*[mul(c, *[power(elem(a, i) if rank(a) == r else a, k) for a, k in m])
                             for m, c in x.args[0]])
    if op in ("exp", "log") or (op in ELEMENTWISE and op not in ("clip", "max", "min")):
        r = rank(x)
        if r is not None and r >= 1:
            return rebuild_args(op, [elem(a, i) if isinstance(a, Term) else a for a in x.args])
    if op in ("lt0", "le0", "eq0", "not") and rank(x) is not None and rank(x) >= 1:
        return rebuild_args(op, [elem(x.args[0], i)])
    if op in ("and", "or") and rank(x) is not None and rank(x) >= 1:
        return rebuild_args(op, [tuple(elem(a, i) if rank(a) == rank(x) else a for a in x.args[0])])
    if op == "cast":
        return cast(elem(x.args[0], i), x.args[1])
    t = mk("elem", x, i)
    return t


def elem_axis(x, i, ax):
    if ax == 0:
        return elem(x, i)
    if isinstance(x, Term) and x.op == "comp":
        v = fresh("a", 0)
        return comp(v, elem_axis(subst(x.args[1], {x.args[0]: v}), i, ax - 1), x.args[2])
    return mk("elemax", x, i, ax)


def slice_(x, lo, st, n):
    """x[lo : : st] with n rows"""
    if not isinstance(x, Term):
        if isinstance(x, tuple):
            a, s, c = const_of(lo), const_of(st), const_of(n)
            if None not in (a, s, c):
                return tuple(x[int(a) + int(s) * j] for j in range(int(c)))
        return x
    if x.op == "slice":
        b, lo0, st0, n0 = x.args
        return slice_(b, add(lo0, mul(lo, st0)), mul(st, st0), n)
    if x.op == "comp":
        v = fresh("s", 0)
        return comp(v, subst(x.args[1], {x.args[0]: add(lo, mul(v, st))}), n)
    if x.op == "cumsum" and const_of(x.args[1]) == 0 and const_of(lo) == 0 and const_of(st) == 1 and n is not None:
        return mk("cumsum", slice_(x.args[0], 0, 1, n), 0)
    if x.op == "arange":
        a, hi, s = x.args
        return mk("arange", add(a, mul(lo, s)), n, mul(s, st))
    if x.op == "sel" and rank(x.args[0]) == 0:
        return sel(x.args[0], slice_(x.args[1], lo, st, n), slice_(x.args[2], lo, st, n))
    if const_of(lo) == 0 and const_of(st) == 1 and n is not None and same(n, length(x)):
        return x
    if x.op == "concat" and const_of(st) == 1 and n is not None:
        off = 0                       # exactly one of the parts
        for q in x.args[0]:
            ln = length(q)
            if same(off, lo) and same(ln, n):
                return q
            off = add(off, ln)
    a, s, c = const_of(lo), const_of(st), const_of(n)
    if x.op == "arr" and None not in (a, s, c):
        return mk("arr", tuple(x.args[0][int(a) + int(s) * j] for j in range(int(c))))
    return mk("slice", x, lo, st, n)


def flat(x, n):
    """merge axes 0 and 1; n = inner length"""
    if isinstance(x, Term) and x.op == "split2":
        return slice_(x.args[0], 0, 1, mul(x.args[1], x.args[2]))
    if isinstance(x, Term) and x.op == "comp":
        i, body, m = x.args
        inner = None
        if isinstance(body, Term) and body.op == "comp":
            v, w = fresh("fi", 0), fresh("fj", 0)
            b = subst(body, {i: v})
            ibody = subst(b.args[1], {b.args[0]: w})
            nn = b.args[2]
            if not (free_vars(nn) & {v}):
                q = fresh("fq", 0)
                # v = (q - w)/nn : the body must not depend on w afterwards
                cand = subst(ibody, {w: sub(q, mul(nn, v))})
                if v not in free_vars(cand):
                    return comp(q, cand, mul(m, nn))
    return mk("flat", x, n)


def split2(x, a, b):
    """reshape axis 0 into (a, b)"""
    return mk("split2", x, a, b)


def concat(parts):
    ps = []
    for p in parts:
        if isinstance(p, Term) and p.op == "concat":
            ps.extend(p.args[0])
        else:
            ps.append(p)
    changed = True
    while changed and len(ps) > 1:
        changed = False
        for k in range(len(ps) - 1):
            a, b = ps[k], ps[k + 1]
            j = _join(a, b)
            if j is not None:
                ps[k:k + 2] = [j]
                changed = True
                break
    if len(ps) == 1:
        return ps[0]
    return mk("concat", tuple(ps))


def _join(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == "comp" and b.op == "comp":
            v = fresh("c", 0)
            fa = subst(a.args[1], {a.args[0]: add(v, a.args[2])})
            fb = subst(b.args[1], {b.args[0]: v})
            if same(fa, fb):
                w = fresh("c", 0)
                return comp(w, subst(a.args[1], {a.args[0]: w}), add(a.args[2], b.args[2]))
        if a.op == "slice" and b.op == "slice" and a.args[0] is b.args[0] and same(a.args[2], b.args[2]) \
                and a.args[3] is not None and b.args[3] is not None:
            if same(add(a.args[1], mul(a.args[2], a.args[3])), b.args[1]):
                return slice_(a.args[0], a.args[1], a.args[2], add(a.args[3], b.args[3]))
    return None


def min_(*xs):
    xs = list(dict.fromkeys(xs))
    if all(const_of(x) is not None for x in xs):
        return min(xs, key=const_of)
    if len(xs) == 1:
        return xs[0]
    return mk("min", tuple(sorted(xs, key=lambda z: (isinstance(z, Term), z.uid if isinstance(z, Term) else const_of(z)))))


def max_(*xs):
    xs = list(dict.fromkeys(xs))
    if all(const_of(x) is not None for x in xs):
        return max(xs, key=const_of)
    if len(xs) == 1:
        return xs[0]
    return mk("max", tuple(sorted(xs, key=lambda z: (isinstance(z, Term), z.uid if isinstance(z, Term) else const_of(z)))))


def set_rows(base, k, val):
    return mk("setax", base, k, val)


def cast(x, dtype):
    if isinstance(x, Term) and x.op == "cast" and x.args[1] == dtype:
        return x
    return mk("cast", x, dtype) if isinstance(x, Term) else x


def attr(o, name):
    if isinstance(o, Term):
        if o.op == "sel":
            return sel(o.args[0], attr(o.args[1], name), attr(o.args[2], name))
        if o.op == "upda":
            base, f, val = o.args
            return val if f == name else attr(base, name)
        if o.op == "comp":
            pass
    return mk("attr", o, name)


def combine(a, b):
    """eqx.combine of the two halves of one partition"""
    if isinstance(a, Term) and isinstance(b, Term):
        if b.op == "dyn":
            a, b = b, a
        if a.op == "dyn" and b.op == "stat":
            x, y = a.args[0], b.args[0]
            if x is y:
                return x
            if isinstance(x, Term) and x.op == "elem" and x.args[0] is y:
                return x
    return mk("comb", a, b)


def mvn_logpdf(x, mean, cov):
    return mk("mvnlogpdf", x, mean, cov)


def grad(l, at):
    """gradient of the function l (a lam) at `at`; linear in l"""
    if not isinstance(l, Term) or l.op != "lam":
        return mk("grad", l, at)
    v, body = l.args
    p = to_poly(body) if isinstance(body, Term) or is_num(body) else None
    if p is None:
        return mk("grad", l, at)
    out = []
    for m, c in p.items():
        dep = [(a, k) for a, k in m if v in free_vars(a)]
        ind = [(a, k) for a, k in m if v not in free_vars(a)]
        if not dep:
            continue
        if all(rank(a) == 0 for a, _ in ind):
            inner = from_poly({tuple(dep): Fraction(1)})
            w = fresh("g")
            if rank(v) is not None:
                RANK[w] = rank(v)
            out.append(mul(c, *[power(a, k) for a, k in ind], _grad_atom(lam(w, subst(inner, {v: w})), at)))
        else:
            return mk("grad", l, at)
    return add(*out) if out else 0


def _grad_atom(l, at):
    t = mk("grad", l, at)
    r = rank(at)
    if r is not None:
        RANK[t] = r
    return t


# ------------------------------------------------------------------ pushing arithmetic into comprehensions

def _push(v):
    if not isinstance(v, Term) or v.op != "poly":
        return v
    comps = {a for m, _ in v.args[0] for a, _e in m if a.op == "comp"}
    if not comps:
        return v
    rs = {a: rank(a) for a in comps}
    if any(r is None for r in rs.values()) or len(set(rs.values())) != 1:
        return v
    r = next(iter(rs.values()))
    n = None
    for a in comps:
        if n is None:
            n = a.args[2]
        elif not same(n, a.args[2]):
            return v
    for m, _ in v.args[0]:
        for a, _e in m:
            if a not in comps:
                ra = rank(a)
                if ra is None or ra > r:
                    return v
    w = fresh("e", 0)
    body = add(*[mul(c, *[power(elem(a, w) if a in comps or rank(a) == r else a, k) for a, k in m]) for m, c in v.args[0]])
    return comp(w, body, n)


# ------------------------------------------------------------------ queries

def walk(t, seen=None):
    """all distinct subterms (including under binders)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def contains(t, s):
    return any(x is s for x in walk(t))


def taint(t):
    """description of an unmodelled construct inside t, or None"""
    for x in walk(t):
        if x.op == "unk":
            return x
    return None


def expand(t, f):
    """bottom-up rewrite by f (term -> replacement or None)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            r = rebuild(x, go) if x.args and x.op not in ("var", "bv") else x
        memo[x] = r
        return r
    return go(t)


def assume(t, c, val):
    """simplify t knowing boolean c has value val"""
    return expand(t, lambda x: val if x is c else None)


_SHOWDEPTH = [0]


def show(v, depth=0):
    if depth > 14:
        return "…"
    s = lambda x: show(x, depth + 1)
    if isinstance(v, tuple):
        return "(" + ", ".join(s(x) for x in v) + ")"
    if not isinstance(v, Term):
        return str(v) if isinstance(v, Fraction) else repr(v)
    op, a = v.op, v.args
    if op == "var":
        return a[0]
    if op == "bv":
        return f"_{a[0]}"
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = []
            for t, k in m:
                x = s(t)
                if t.op == "poly":
                    x = f"({x})"
                fs.append(x if k == 1 else f"{x}^{k}")
            if c == 1 and fs:
                out.append("*".join(fs))
            elif c == -1 and fs:
                out.append("-" + "*".join(fs))
            else:
                out.append("*".join([str(c)] + fs))
        return " + ".join(out).replace("+ -", "- ")
    if op == "lt0":
        return f"({s(a[0])} < 0)"
    if op == "le0":
        return f"({s(a[0])} <= 0)"
    if op == "sel":
        return f"where({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if op == "elem":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "app":
        return f"{s(a[0])}({', '.join(s(x) for x in a[1])})"
    if op == "mcall":
        return f"{s(a[0])}.{a[1]}({', '.join(s(x) for x in a[2])})"
    if op == "comp":
        return f"[{s(a[1])} for {s(a[0])}<{s(a[2])}]"
    if op == "rnd":
        return f"{a[0]}~{s(a[1])}"
    if op == "loop":
        return ("loop{" + "; ".join(f"{s(p)}={s(i)}→{s(n)}" for p, i, n in zip(a[0], a[1], a[2]))
                + f" | ys={s(a[3])} n={s(a[5])}{' rev' if a[6] else ''}" + "}")
    return f"{op}({', '.join(s(x) if not isinstance(x, str) else x for x in a)})"


def lets(t, minsize=6):
    """text of a term with repeated subterms named (for reports)"""
    cnt, size, order = {}, {}, []

    def go(x):
        if isinstance(x, tuple):
            return sum(go(y) for y in x)
        if not isinstance(x, Term):
            return 0
        if x in cnt:
            cnt[x] += 1
            return size[x]
        cnt[x] = 1
        size[x] = 1
        s = 1 + sum(go(a) for a in (x.args if x.op != "poly" else [a for m, _ in x.args[0] for a, _e in m]))
        size[x] = s
        order.append(x)
        return s
    go(t)
    names, lines, mp = {}, [], {}
    for x in order:
        if x is not t and cnt[x] > 1 and size[x] >= minsize and x.op not in ("bv", "var"):
            nm = mk("var", f"${len(names)}")
            names[x] = nm
    memo = {}

    def rep(x):
        if isinstance(x, tuple):
            return tuple(rep(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if x.op == "poly":
            y = mk("poly", tuple((tuple((rep(a), e) for a, e in m), c) for m, c in x.args[0]))
        else:
            y = mk(x.op, *[rep(a) for a in x.args]) if x.args else x
        memo[x] = names.get(x, y) if x is not t else y
        if x in names:
            lines.append(f"  {names[x].args[0]} = {show(y, -6)}")
        return memo[x]
    r = rep(t)
    return "\n".join(lines + [show(r, -6)])

# bound variables exist from the start, so that sorting by uid sorts them by number
for _j in range(1, 200):
    for _r in (None, 0, 1, 2, 3, 4):
        mk("bv", _j, _r)
