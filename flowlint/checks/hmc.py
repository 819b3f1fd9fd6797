"""Hamiltonian Monte Carlo: the proposal is a palindromic composition of shears that
follows one Hamiltonian, and that Hamiltonian's energy decides acceptance."""
from fractions import Fraction

from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import mh
from .scen import KEY, POS, LP, F, DATA, lpdf, nf_contract
from .kernels import coherent, accept_of
from .keys import independent
from .base import tainted, txt

WHERE = ("HMC", "kernel")


# ------------------------------------------------------------------ linear algebra

def mat(m):
    """('diag', entries) or ('dense', term)"""
    if not isinstance(m, Term) or T.rank(m) in (0, 1):
        return ("diag", m)
    if m.op == "eye":
        return ("diag", Fraction(1))
    if m.op == "diag" and T.rank(m.args[0]) == 1:
        v = m.args[0]
        return ("diag", unfull(v))
    p = T.to_poly(m)
    if len(p) == 1:
        (mono, c), = p.items()
        sc = [(a, k) for a, k in mono if T.rank(a) == 0]
        ma = [(a, k) for a, k in mono if T.rank(a) != 0]
        if len(ma) == 1 and ma[0][1] == 1 and (sc or c != 1):
            k, v = mat(ma[0][0])
            return (k, T.mul(T.from_poly({tuple(sc): c}), v))
    if m.op == "inv":
        k, v = mat(m.args[0])
        if k == "diag":
            return (k, T.div(1, v))
        if isinstance(v, Term) and v.op == "inv":
            return mat(v.args[0])
        return (k, mk("inv", v))
    if m.op == "chol":
        k, v = mat(m.args[0])
        return (k, T.power(v, Fraction(1, 2))) if k == "diag" else (k, m)
    if m.op == "T":
        k, v = mat(m.args[0])
        return (k, v) if k == "diag" else (k, m)
    return ("dense", m)


def unfull(v):
    if isinstance(v, Term) and v.op == "full":
        return v.args[1]
    if isinstance(v, Term) and v.op == "bto":
        return v.args[0]
    return v


def inverse(m):
    k, v = m
    if k == "diag":
        return (k, T.div(1, v))
    if isinstance(v, Term) and v.op == "inv":
        return (k, v.args[0])
    return (k, mk("inv", v))


def same_mat(a, b):
    return a[0] == b[0] and T.same(a[1], b[1])


def covariance(p, z):
    """covariance of p = L z, z standard normal; None when p is not of that form"""
    if p is z:
        return ("diag", Fraction(1))
    if isinstance(p, Term) and p.op == "dot":
        ch = p.args[0]
        if z not in ch:
            c = None
        elif len(ch) == 2:
            L = ch[1] if ch[0] is z else ch[0]
            tr = ch[0] is z           # p = z L = L^T z
            k, v = mat(L)
            if k == "diag":
                return (k, T.mul(v, v))
            if tr:
                v = T.transpose(v)
            if isinstance(v, Term) and v.op == "chol":
                return mat(v.args[0])
            if isinstance(v, Term) and v.op == "T" and v.args[0].op == "chol":
                return ("gramT", v.args[0].args[0])
            if isinstance(v, Term) and v.op in ("inv",):
                w = v.args[0]
                if w.op == "T" and w.args[0].op == "chol":     # L = C^-T: L L^T = (C C^T)^-1
                    return inverse(mat(w.args[0].args[0]))
                if w.op == "chol":
                    return ("gramT", mk("inv", w.args[0]))
        return None
    s = T.div(p, z) if isinstance(p, Term) else None
    if s is not None and not (isinstance(s, Term) and T.contains(s, z)):
        s = unfull(s) if isinstance(s, Term) else s
        k, v = mat(s)
        if k == "diag":
            return (k, T.mul(v, v))
    return None


def metric(K, q):
    """the matrix A of K = 1/2 q A q; None when K is not such a form"""
    p = T.to_poly(K)
    if len(p) != 1:
        return None
    (mono, c), = p.items()
    ats = [(a, k) for a, k in mono if T.contains(a, q)]
    rest = [(a, k) for a, k in mono if not T.contains(a, q)]
    if len(ats) != 1 or ats[0][1] != 1 or any(T.rank(a) not in (0, None) for a, _ in rest):
        return None
    sc = T.from_poly({tuple(rest): 2 * c})
    a = ats[0][0]
    if a.op == "dot" and len(a.args[0]) == 3 and a.args[0][0] is q and a.args[0][2] is q:
        k, v = mat(a.args[0][1])
        return (k, T.mul(sc, v))
    if a.op == "sum":
        w = T.div(a.args[0], T.mul(q, q))
        if not (isinstance(w, Term) and T.contains(w, q)):
            k, v = mat(unfull(w) if isinstance(w, Term) else w)
            if k != "diag":
                k = "column sums of"      # sum_ij M_ij q_j^2 is not q M q
            return (k, T.mul(sc, v))
    return None


# ------------------------------------------------------------------ shears

class NotShears(Exception):
    pass


class Stale(Exception):
    """a shear that is not evaluated at the freshly updated variable"""


def linear_coef(t, g):
    """coefficient of g in t when t is affine in g"""
    if not isinstance(g, Term):
        return None
    gp = T.to_poly(g)
    if len(gp) != 1:
        return None
    (gm, gc), = gp.items()
    at = [a for a, _ in gm if T.rank(a) != 0]
    if len(at) != 1:
        return None
    out = []
    for m, c in T.to_poly(t).items():
        for a, k in m:
            if a is at[0]:
                if k != 1:
                    return None
                out.append(T.from_poly({m: c}))
    if not out:
        return None
    s = T.div(T.add(*out), g)
    if isinstance(s, Term) and T.contains(s, at[0]):
        return None
    return s


def closed(ts, q, p):
    """only gradients, sums and products of the two carried values: nothing a drift/kick word could hide in"""
    return all(u.op in ("poly", "grad", "lam", "app", "dot", "sum", "var", "bv", "diag", "elem", "setax", "full",
                        "arr", "bto", "len", "attr", "mul", "T", "eye", "inv", "chol") for u in T.walk(ts))


def shears(Q, P, q, p, gradU, gradK, limit=8):
    """[(kind, coefficient)] taking (q, p) to (Q, P); kind 'D': q += c gradK(p),
    'K': p += c gradU(q) where gradU is the gradient of the log density"""
    word = []
    while not (Q is q and P is p):
        if len(word) >= limit:
            raise NotShears("too many sub-steps")
        c = linear_coef(P, gradU(Q)) if P is not p else None
        if c is not None and T.const_of(c) != 0:
            P = T.sub(P, T.mul(c, gradU(Q)))
            word.append(("K", c))
            continue
        c = linear_coef(Q, gradK(P)) if Q is not q else None
        if c is not None and T.const_of(c) != 0:
            Q = T.sub(Q, T.mul(c, gradK(P)))
            word.append(("D", c))
            continue
        if P is not p and linear_coef(P, gradU(q)) is not None and not (Q is q):
            raise Stale("the momentum is kicked by the gradient at a position that is not the current one")
        if Q is not q and linear_coef(Q, gradK(p)) is not None and not (P is p):
            raise Stale("the position drifts with a momentum that is not the current one")
        if tainted((Q, P)) is None and closed((Q, P), q, p):
            raise Stale("a sub-step is neither a drift along the kinetic gradient nor a kick along the gradient "
                        f"of the target: Q = {txt(Q, 300)}; P = {txt(P, 300)}")
        raise NotShears(f"not a sequence of drifts and kicks: Q = {txt(Q, 300)}; P = {txt(P, 300)}")
    return word[::-1]


# ------------------------------------------------------------------ coefficient tables

END = "end"       # row n - k


class Unread(Exception):
    pass


def specials(t, idx, n):
    """distance from either end of the rows that are written separately"""
    m = 1
    for u in T.walk(t):
        ks = []
        if u.op == "setax":
            ks.append(T.const_of(u.args[1]))
        elif u.op == "setmd" and isinstance(u.args[1], tuple):
            ks.append(T.const_of(u.args[1][0]))
        elif u.op == "concat":
            ks += [T.const_of(T.length(x)) for x in (u.args[0][0], u.args[0][-1])]
        if u.op == "elem" and u.args[1] is idx and T.length(u.args[0]) is not None:
            ks.append(T.const_of(T.sub(T.length(u.args[0]), n)))
        if u.op == "eq0" and T.contains(u.args[0], idx):
            d = T.sub(u.args[0], idx) if T.same(T.subst(T.sub(u.args[0], idx), {idx: 0}), T.sub(u.args[0], idx)) \
                else T.add(u.args[0], idx)
            ks += [T.const_of(d), T.const_of(T.sub(d, n)), T.const_of(T.add(d, n))]
        for k in ks:
            if k is not None:
                m = max(m, int(abs(k)))
    return m


def row(x, j, n):
    """row j of a table with n rows; j = ('abs', k), ('end', k) or ('gen',)"""
    if not isinstance(x, Term):
        return x
    if x.op == "setax":
        base, k, val = x.args
        ck = T.const_of(k)
        if ck is None:
            d = T.const_of(T.sub(k, n))
            if d is None:
                raise Unread(txt(x, 200))
            kk = (END, int(-d))
        else:
            kk = ("abs", int(ck)) if ck >= 0 else (END, int(-ck))
        return val if kk == j else row(base, j, n)
    if x.op == "setmd" and isinstance(x.args[1], tuple) and len(x.args[1]) == 2:
        base, (k, col), val = x.args
        ck = T.const_of(k)
        if ck is None:
            d = T.const_of(T.sub(k, n))
            if d is None:
                raise Unread(txt(x, 200))
            kk = (END, int(-d))
        else:
            kk = ("abs", int(ck)) if ck >= 0 else (END, int(-ck))
        b = row(base, j, n)
        return mk("setax", b, col, val) if kk == j else b
    if x.op == "full":
        sh, val = x.args
        return val if len(sh) == 1 else mk("full", sh[1:], val)
    if x.op == "concat":
        parts = x.args[0]
        if j[0] == "abs":
            off = 0
            for p_ in parts:
                c = T.const_of(T.length(p_))
                if c is None:
                    return row(p_, ("abs", j[1] - off) if j[1] > off else ("abs", 0), T.length(p_))
                if j[1] < off + c:
                    return T.elem(p_, j[1] - off)
                off += int(c)
        if j[0] == END:
            off = 0
            for p_ in reversed(parts):
                c = T.const_of(T.length(p_))
                if c is None:
                    return row(p_, (END, j[1] - off) if j[1] - off > 1 else (END, 1), T.length(p_))
                if j[1] <= off + c:
                    return T.elem(p_, int(off + c - j[1]) if off else int(c - j[1]))
                off += int(c)
        if j[0] == "gen":
            mid = [p_ for p_ in parts if T.const_of(T.length(p_)) is None]
            if len(mid) == 1:
                return row(mid[0], j, T.length(mid[0]))
    if x.op == "sel" and T.rank(x.args[0]) == 0:
        return T.sel(x.args[0], row(x.args[1], j, n), row(x.args[2], j, n))
    if x.op == "comp":
        if j[0] == "abs":
            return T.elem(x, j[1])
        if j[0] == END:
            return T.elem(x, T.sub(n, j[1]))
        return T.elem(x, mk("var", "row"))
    raise Unread(txt(x, 200))


def table_row(x, j, n):
    """row j of the loop's n rows in a table of its own length"""
    if j[0] == END:
        N = T.length(x)
        d = T.const_of(T.sub(N, n)) if N is not None else None
        if d is None or j[1] + d <= 0:
            raise Unread(f"row {j} of {n} in {txt(x, 200)}")
        j = (END, int(j[1] + d))
        n = N
    return row(x, j, n)


def at_row(c, idx, j, n):
    """coefficient c(idx) at row j"""
    if not isinstance(c, Term) or not T.contains(c, idx):
        return c

    def fold(x):
        if x.op == "elem" and x.args[1] is idx:
            v = table_row(x.args[0], j, n)
            return T.expand(v, fold) if isinstance(v, Term) else v
        if x.op == "eq0" and T.contains(x.args[0], idx):
            for s in (1, -1):
                d = T.add(x.args[0], T.mul(s, idx))
                if not (isinstance(d, Term) and T.contains(d, idx)):
                    z = T.mul(-s, d) if s == -1 else d        # idx == z
                    z = d if s == 1 else T.neg(d)
                    k, e = T.const_of(z), T.const_of(T.sub(n, z))
                    if j[0] == "gen":
                        if k is not None or e is not None:
                            return False
                    elif j[0] == "abs" and k is not None:
                        return k == j[1]
                    elif j[0] == END and e is not None:
                        return e == j[1]
                    elif j[0] == "abs" and e is not None or j[0] == END and k is not None:
                        return False
            raise Unread(txt(x, 200))
        return None
    r = T.expand(c, fold)
    if isinstance(r, Term) and T.contains(r, idx):
        if j[0] == "abs":
            r = T.subst(r, {idx: j[1]})
        elif j[0] == END:
            r = T.subst(r, {idx: T.sub(n, j[1])})
        else:
            raise Unread(txt(r, 200))
    return r


def rows_needed(m):
    return [("abs", k) for k in range(m + 1)] + [("gen",)] + [(END, k) for k in range(m + 1, 0, -1)]


def mirror(j, shift):
    """row n - 1 - i + shift"""
    if j == ("gen",):
        return j
    kind, k = j
    if kind == "abs":                 # n - 1 - k + shift = n - (k + 1 - shift)
        return (END, k + 1 - shift)
    return ("abs", k - 1 + shift)


# ------------------------------------------------------------------ the rule

def kernel_terms(ctx, rank):
    I = Interp(ctx.p, contract=nf_contract(ctx.p))
    M, e, L = (T.sym(f"{n}_{rank}") for n in ("condition_matrix", "step_size", "n_leapfrog"))
    T.RANK[M], T.RANK[e], T.RANK[L] = rank, 0, 0
    T.RANK[POS], T.RANK[LP], T.RANK[("ret", F)] = 1, 0, 0
    C = ctx.p.find_class("HMC")
    o = I.instantiate(C, [], dict(condition_matrix=M, step_size=e, n_leapfrog=L), None)
    r = I.call(I.get_attr(o, "kernel", None), [KEY, POS, LP, F, DATA], {}, None)
    ctx.absorb(I)
    return tuple(I.freeze(v) for v in r)


def momentum_out(ratio, X):
    """(kinetic atom part of the final energy, P') from the log-ratio"""
    for m, c in T.to_poly(ratio).items():
        for a, k in m:
            if a.op == "app" or not any(u.op == "fin" for u in T.walk(a)):
                continue
            best = None
            for u in T.walk(a):
                if T.rank(u) == 1 and any(w.op == "fin" for w in T.walk(u)):
                    v = T.fresh("q", 1)
                    if not any(w.op == "fin" for w in T.walk(T.subst(a, {u: v}))):
                        if best is None or T.contains(best, u):
                            best = u if best is None or not T.contains(u, best) else best
            if best is not None:
                return best
    return None


def c02(ctx):
    for rank in (0, 1, 2):
        hmc(ctx, rank)


def hmc(ctx, rank):
    kind = ("scalar", "vector", "matrix")[rank] + " condition"
    w = ctx.where(*WHERE)
    R = lambda s: f"C02.{s}[{kind}]"
    r = kernel_terms(ctx, rank)
    pos, lp, acc = (coherent(v) for v in r)
    a = accept_of(ctx, R("decision"), w, acc)
    if a is None:
        return
    X, lo = mh.branches(pos, acc)
    ctx.same(R("rejected"), w, lo, POS, "a rejected proposal leaves the chain where it was")
    for t in (X, a.ratio):
        if tainted(t) is not None:
            ctx.und(R("trajectory"), w, f"depends on an unmodelled construct: {tainted(t).args[0]}")
            return
    zs = [u for u in mh.draws(T.sub(a.ratio, 0) if isinstance(a.ratio, Term) else X, "normal")]
    if len(zs) != 1:
        ctx.und(R("momentum"), w, f"{len(zs)} normal draws in the energy")
        return
    z = zs[0]
    Pf = momentum_out(a.ratio, X)
    if Pf is None:
        ctx.bad(R("energy"), w, "the acceptance ratio does not contain the kinetic energy of the final momentum",
                a.ratio)
        return
    # kinetic energy as a function
    q = T.fresh("q", 1)
    Kf = T.add(*[T.from_poly({m: c}) for m, c in T.to_poly(a.ratio).items()
                 if T.contains(T.subst(T.from_poly({m: c}), {Pf: q}), q)
                 and not any(x.op == "app" for x in T.walk(T.from_poly({m: c}), set()) if T.contains(x, Pf))])
    Kq = T.neg(T.subst(Kf, {Pf: q}))
    Klam = T.lam(q, Kq)

    def kin(p):
        return T.subst(Kq, {q: p})

    def gradK(p):
        return T.grad(Klam, p)
    v = T.fresh("x", 1)
    Ulam = T.lam(v, lpdf(v))

    def gradU(x):
        return T.grad(Ulam, x)
    # trajectory: suffix, loop, prefix
    try:
        prefix, body, n, idx, suffix, p0 = trajectory(X, Pf, z, gradU, gradK)
    except Stale as e:
        ctx.bad(R("shears"), w, str(e), X)
        return
    except NotShears as e:
        ctx.und(R("shears"), w, str(e))
        return
    ctx.ok(R("shears"), w, f"trajectory = {len(prefix)} + n x {len(body)} + {len(suffix)} drifts/kicks, each "
                           "evaluated at the current position / momentum")
    # energy
    want = T.sub(T.add(lpdf(X), kin(p0)), T.add(lpdf(POS), kin(Pf)))
    ctx.same(R("energy"), w, a.ratio, want, "log-ratio = H(x0, p0) - H(x1, p1), H = -log p + K")
    # momentum
    mm, cv = metric(Kq, q), covariance(p0, z)
    if mm is None or cv is None:
        ctx.und(R("momentum"), w, f"kinetic energy {txt(Kq, 200)} / momentum {txt(p0, 200)} not recognised")
    else:
        good = same_mat(cv, inverse(mm)) or (cv[0] == "gramT" and False)
        (ctx.ok if good else ctx.bad)(
            R("momentum"), w, f"covariance of the momentum draw is the inverse of the kinetic matrix "
                              f"(K = {txt(Kq, 80)}, p0 = {txt(p0, 80)})")
    dims = T.dims(z)
    ctx.true(R("noise-shape"), w, dims is not None and len(dims) == 1 and T.same(dims[0], T.length(POS)),
             "one independent normal draw per dimension", z)
    independent(ctx, R("keys"), w, [("the momentum", z.args[1]), ("the accept draw", a.key)])
    # palindrome
    try:
        palindrome(ctx, R, w, prefix, body, n, idx, suffix)
    except Unread as e:
        ctx.und(R("reversible"), w, f"coefficient table not readable: {e}")


def trajectory(X, P, z, gradU, gradK):
    fx = [u for u in T.walk(X) if u.op == "fin"]
    fp = [u for u in T.walk(P) if u.op == "fin"]
    roots = [u for u in fx + fp if not any(u is not v and T.contains(v, u) for v in fx + fp)]
    qf = [u for u in roots if init_is_pos(u)]
    pf = [u for u in roots if not init_is_pos(u)]
    if not qf:
        raise NotShears("no loop starting at the current position")
    if len(set(qf)) != 1 or len(set(pf)) > 1:
        raise NotShears("more than one loop")
    if not pf:
        raise NotShears("no momentum loop")
    qf, pf = qf[0], pf[0]
    suffix = shears(X, P, qf, pf, gradU, gradK)
    (L1, k1), (L2, k2) = qf.args, pf.args
    if len(L1.args[0]) != 2 or len(L2.args[0]) != 2:
        raise NotShears(f"the loop carries {len(L1.args[0])} values")
    q1, p1 = L1.args[0][k1], L1.args[0][1 - k1]
    q2, p2 = L2.args[0][1 - k2], L2.args[0][k2]
    q, p, i = T.fresh("q", 1), T.fresh("p", 1), T.fresh("i", 0)
    m1, m2 = {q1: q, p1: p, L1.args[4]: i}, {q2: q, p2: p, L2.args[4]: i}
    Q, P1 = T.subst(L1.args[2][k1], m1), T.subst(L1.args[2][1 - k1], m1)
    Q2, P2 = T.subst(L2.args[2][1 - k2], m2), T.subst(L2.args[2][k2], m2)
    if not (T.same(Q, Q2) and T.same(P1, P2) and T.same(L1.args[5], L2.args[5]) and L1.args[6] == L2.args[6]
            and T.same(L1.args[1][k1], L2.args[1][1 - k2]) and T.same(L1.args[1][1 - k1], L2.args[1][k2])):
        raise NotShears("position and momentum come from different loops")
    if L1.args[6]:
        raise NotShears("reversed loop")
    body = shears(Q, P1, q, p, gradU, gradK)
    Q0, P0 = L1.args[1][k1], L1.args[1][1 - k1]
    prefix, p0 = head(Q0, P0, z, gradU, gradK)
    return prefix, body, L1.args[5], i, suffix, p0


def init_is_pos(f):
    L, k = f.args
    return T.contains(L.args[1][k], POS) and not any(u.op == "rnd" for u in T.walk(L.args[1][k]) if not
                                                     u.op == "grad") or L.args[1][k] is POS


def head(Q, P, z, gradU, gradK):
    word = []
    for _ in range(8):
        if Q is POS:
            c = linear_coef(P, gradU(POS))
            if c is None:
                return word[::-1], P
            word.append(("K", c))
            P = T.sub(P, T.mul(c, gradU(POS)))
            continue
        c = linear_coef(P, gradU(Q))
        if c is not None:
            P = T.sub(P, T.mul(c, gradU(Q)))
            word.append(("K", c))
            continue
        c = linear_coef(Q, gradK(P))
        if c is None:
            raise NotShears(f"start of the trajectory: {txt(Q, 200)}, {txt(P, 200)}")
        Q = T.sub(Q, T.mul(c, gradK(P)))
        word.append(("D", c))
    raise NotShears("too many sub-steps before the loop")


def merge(word):
    out = []
    for k, c in word:
        if out and out[-1][0] == k:
            c = T.add(out.pop()[1], c)
        if T.const_of(c) != 0 or T.const_of(c) is None:
            out.append((k, c))
    return out


def same_word(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and T.same(x[1], y[1]) for x, y in zip(a, b))


def palindrome(ctx, R, w, prefix, body, n, idx, suffix):
    const = all(not (isinstance(c, Term) and T.contains(c, idx)) for _, c in body)
    drift = [c for k, c in body if k == "D"]
    kick = [c for k, c in body if k == "K"]
    out = {"D": [c for k, c in prefix + suffix if k == "D"], "K": [c for k, c in prefix + suffix if k == "K"]}
    if const:
        pre_, suf = merge(prefix), merge(suffix)
        good = False
        words = [(pre_, body, suf)]
        if len(body) == 2:
            s1, s2 = body
            if suf and suf[0][0] == s1[0]:
                words.append((pre_, [s1, s2], merge([(s1[0], T.neg(s1[1]))] + suf), "odd"))
            if pre_ and pre_[-1][0] == s2[0]:
                words.append((merge(pre_ + [(s2[0], T.neg(s2[1]))]), body, suf, "odd"))
        for wd in words:
            if len(wd) == 4 and same_word(wd[0], wd[2][::-1]):
                good = True
            if len(wd) == 3 and same_word(wd[1], wd[1][::-1]) and same_word(wd[0], wd[2][::-1]):
                good = True
        (ctx.ok if good else ctx.bad)(R("reversible"), w, "the sequence of drifts and kicks reads the same "
                                      "forwards and backwards")
        tot = {k: T.add(*(out[k] + [T.mul(n, c) for c in (drift if k == "D" else kick)]), 0) for k in "DK"}
        ctx.same(R("time"), w, tot["K"], tot["D"], "positions and momenta are advanced by the same total time")
        return
    if prefix or suffix or len(body) != 2:
        ctx.und(R("reversible"), w, "row-dependent coefficients with extra sub-steps")
        return
    (k1, c1), (k2, c2) = body
    m = max(specials(c, idx, n) for c in (c1, c2))
    rows = rows_needed(m)
    A = {j: at_row(c1, idx, j, n) for j in rows}
    B = {j: at_row(c2, idx, j, n) for j in rows}
    ok = True
    first, last = ("abs", 0), (END, 1)
    # word: c1[0] c2[0] c1[1] c2[1] ... ; one end must be trivial
    if T.const_of(A[first]) == 0:
        pairs = [(B, j, mirror(j, 0)) for j in rows] + [(A, j, mirror(j, 1)) for j in rows if j != first]
    elif T.const_of(B[last]) == 0:
        pairs = [(A, j, mirror(j, 0)) for j in rows] + [(B, j, mirror(j, -1)) for j in rows if j != last]
    else:
        ctx.bad(R("reversible"), w, "the trajectory starts and ends with different kinds of sub-step",
                (A[first], B[last]))
        return
    for tab, j, k in pairs:
        x = tab[j]
        y = tab.get(k, tab[("gen",)])
        if not T.same(x, y):
            ctx.bad(R("reversible"), w, f"sub-step coefficients are not palindromic: row {j} and row {k}", x, y)
            ok = False
            break
    if ok:
        ctx.ok(R("reversible"), w, f"coefficients are palindromic over {len(rows)} row classes")
    edge = [j for j in rows if j != ("gen",)]
    tot = []
    for tab in (A, B):
        g = tab[("gen",)]
        tot.append(T.add(*[T.sub(tab[j], g) for j in edge], T.mul(n, g)))
    ctx.same(R("time"), w, tot[1], tot[0], "positions and momenta are advanced by the same total time")
