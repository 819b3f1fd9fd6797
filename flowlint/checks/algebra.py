"""Value terms as exact symbolic expressions (sympy), for identities between rational
functions, logarithms and one square root."""
import sympy as sp

from .. import terms as T
from ..terms import Term


class Alg:
    """translates terms; anything that is not arithmetic, log, exp or a square root is a symbol"""

    def __init__(self, names=None, positive=()):
        self.atom = {}
        self.names = dict(names or {})
        self.n = 0
        self.roots = {}       # radicand -> its square root

    def symbol(self, t):
        if t in self.atom:
            return self.atom[t]
        if t in self.names:
            s = self.names[t]
        else:
            self.n += 1
            s = sp.Symbol(f"a{self.n}")
        self.atom[t] = s
        return s

    def __call__(self, t):
        if isinstance(t, bool):
            return sp.Integer(int(t))
        if not isinstance(t, Term):
            c = T.const_of(t)
            if c is None:
                raise ValueError(f"not a number: {t!r}")
            return sp.Rational(c.numerator, c.denominator)
        if t in self.atom or t in self.names:
            return self.symbol(t)
        if t.op == "poly":
            out = []
            for m, c in t.args[0]:
                e = sp.Rational(c.numerator, c.denominator)
                for a, k in m:
                    if k.denominator == 2 and a in self.roots:
                        e = e * self.roots[a] ** k.numerator
                        continue
                    e = e * self(a) ** sp.Rational(k.numerator, k.denominator)
                out.append(e)
            return sp.Add(*out)
        if t.op == "log":
            return sp.log(self(t.args[0]))
        if t.op == "exp":
            return sp.exp(self(t.args[0]))
        if t.op == "cast":
            return self(t.args[0])
        return self.symbol(t)


def logprod(t, alg):
    """[(argument, coefficient)] of a sum of logarithms (constants as exp), or None"""
    out = []
    for m, c in T.to_poly(t).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log":
            out.append((alg(m[0][0].args[0]), sp.Rational(c.numerator, c.denominator)))
        else:
            out.append((sp.exp(alg(T.from_poly({m: c}))), sp.Integer(1)))
    return out


def ratio_of_logs(t, alg):
    """exp(t) as a product"""
    e = sp.Integer(1)
    for a, c in logprod(t, alg):
        e = e * a ** c
    return e


def zero(e):
    """the rational expression e vanishes identically"""
    e = sp.together(e)
    n, d = sp.fraction(e)
    return sp.expand(n) == 0 or sp.simplify(sp.expand(n)) == 0


def reduce_root(e, S, S2):
    """numerator of e modulo S**2 = S2"""
    n, _ = sp.fraction(sp.together(e))
    p = sp.Poly(sp.expand(n), S)
    r = sp.Integer(0)
    for (k,), c in p.terms():
        r += c * (S2 ** (k // 2)) * (S if k % 2 else 1)
    n2, _ = sp.fraction(sp.together(r))
    return sp.expand(n2)


class Frac:
    """terms as elements of a field of rational functions over the rationals"""

    def __init__(self, field, names):
        self.K = field
        self.names = names            # term -> field element
        self.roots = {}               # radicand -> field element of its positive square root
        self.memo = {}

    def num(self, c):
        return self.K(sp.Rational(c.numerator, c.denominator))

    def __call__(self, t):
        if not isinstance(t, Term):
            return self.value(t)
        if t not in self.memo:
            self.memo[t] = self.value(t)
        return self.memo[t]

    def value(self, t):
        if isinstance(t, bool):
            return self.K(int(t))
        if not isinstance(t, Term):
            c = T.const_of(t)
            if c is None:
                raise Foreign(t)
            return self.num(c)
        if t in self.names:
            return self.names[t]
        if t.op == "poly":
            out = self.K(0)
            for m, c in t.args[0]:
                e = self.num(c)
                for a, k in m:
                    if k.denominator == 2 and a in self.roots:
                        e = e * self.roots[a] ** k.numerator
                    elif k.denominator == 1:
                        v = self(a)
                        e = e * v ** k.numerator if k > 0 else e / v ** (-k.numerator)
                    else:
                        raise Foreign(a)
                out = out + e
            return out
        if t.op == "cast":
            return self(t.args[0])
        if t.op == "sqrt" and t.args[0] in self.roots:
            return self.roots[t.args[0]]
        raise Foreign(t)

    def exp_of(self, t):
        """exp(t) for a sum of integer multiples of logarithms"""
        out = self.K(1)
        for m, c in T.to_poly(t).items():
            if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log":
                v = self(m[0][0].args[0])
                out = out * v ** c.numerator if c > 0 else out / v ** (-c.numerator)
            else:
                raise Foreign(T.from_poly({m: c}))
        return out


class Foreign(Exception):
    """not a rational expression of the named terms"""


def sign(e):
    """+1 / -1 if the rational function has that sign for all positive values of its variables
    (by the coefficients of its irreducible factors), else None"""
    if not e.numer:
        return 0
    s = 1
    for q in (e.numer, e.denom):
        c, fs = q.factor_list()
        if c < 0:
            s = -s
        for f, m in fs:
            if m % 2 == 0:
                continue
            cs = f.coeffs()
            if all(v < 0 for v in cs):
                s = -s
            elif not all(v > 0 for v in cs):
                return None
    return s


def root(e):
    """the positive square root of e in the field, or None"""
    K = e.field
    out = K(1)
    for q, up in ((e.numer, True), (e.denom, False)):
        c, fs = q.factor_list()
        c = sp.Rational(int(c.numerator), int(c.denominator))
        r = sp.sqrt(c)
        if not r.is_rational:
            return None
        v = K(r)
        for f, m in fs:
            if m % 2:
                return None
            cs = f.coeffs()
            if all(k < 0 for k in cs):
                f = -f
            elif not all(k > 0 for k in cs):
                return None
            v = v * K(f) ** (m // 2)
        out = out * v if up else out / v
    return out
