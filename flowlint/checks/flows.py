"""Normalizing flows: every layer is a bijection with the log-determinant it reports, and
the flow composes and inverts its layers in order."""
import ast

import sympy as sp

from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from . import scen, keys
from .algebra import Alg, zero, ratio_of_logs, reduce_root
from .base import tainted, txt

SELF = T.sym("self")
X, COND = T.sym("x"), T.sym("condition")


def pair(ctx, C, name, rule, w, contract=None, args=("x", "condition")):
    """(value, log-determinant) of C.name on symbolic arguments"""
    C_ = C
    hit = C_.lookup(name)
    if hit is None:
        return None
    ps = [a.arg for a in hit[2].args.posonlyargs + hit[2].args.args][1:]
    use = args[:1] if len(ps) < 2 or ps[1] == "key" else args
    I, s, r = keys.run_method(ctx, C_, name, use, [("x", 1), ("condition", 1)], contract=contract)
    if isinstance(r, Term) and r.op in ("tup", "lst"):
        r = r.args[0]
    if not isinstance(r, tuple) or len(r) != 2:
        ctx.und(rule, w, f"{name} does not return a (value, log-determinant) pair")
        return None
    v = tuple(I.freeze(x) for x in r)
    u = tainted(v)
    if u is not None:
        ctx.und(rule, w, f"{name} depends on an unmodelled construct: {u.args[0]}")
        return None
    return (I, s) + v


def bijections(ctx):
    B = ctx.p.find_class("Bijection")
    out = []
    for C in ctx.p.subclasses(B):
        r = C.lookup("forward")
        if r and not ctx.p.is_abstract(r[2]):
            out.append(C)
    C = ctx.p.maybe_class("AffineCoupling")
    if C is not None and C not in out:
        out.append(C)
    return out


def declared(C):
    """attributes declared in the class bodies of C and its bases, with their annotation texts"""
    for K in C.mro():
        if hasattr(K, "attrs"):
            for n, d in K.attrs.items():
                yield n, d


def annotated_rank(ann):
    """number of axes a jaxtyping annotation declares, or None"""
    if isinstance(ann, ast.Subscript) and isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2:
        d = ann.slice.elts[1]
        if isinstance(d, ast.Constant) and isinstance(d.value, str) and "..." not in d.value:
            return len(d.value.split())
    return None


def coordinate_parameters(C):
    """array attributes of a coordinate-wise map: as annotated, else one number for all coordinates"""
    for n, (ann, _) in declared(C):
        r = annotated_rank(ann)
        if r is None:
            txt_ = ast.unparse(ann) if ann is not None else ""
            if txt_ not in ("Array", "Float", "float", "int", "jax.Array"):
                continue
            r = 0
        T.RANK.setdefault(mk("attr", SELF, n), r)


def inner_bijector(p):
    """the bijector inside a coupling layer, and the networks, are uninterpreted"""
    B = p.find_class("Bijection")
    nets = keys.opaque_models(p)

    def contract(I, obj, name, args, kw, node):
        if name in ("forward", "inverse", "__call__") and isinstance(obj, Term) and obj is not SELF and len(args) == 2:
            ty = I.typeof(obj)
            if ty is None and layerlike(obj) or ty is not None and B in ty[0].mro():
                t = mk("mcall", I.freeze(obj), "forward" if name == "__call__" else name, tuple(I.freeze(a) for a in args))
                out = mk("elem", t, 0), mk("elem", t, 1)
                for o in out:
                    T.RANK[o] = 1
                return out
        return nets(I, obj, name, args, kw, node)
    return contract


def has_mask(C):
    return any(n == "_mask" or n == "mask" for K in C.mro() if hasattr(K, "attrs") for n in list(K.attrs) + list(K.methods))


def coord(t, j):
    return T.elem(t, j) if isinstance(t, Term) and T.rank(t) != 0 else t


def summand(t, j):
    """the term summed over the coordinates, at coordinate j"""
    out = 0
    for m, c in T.to_poly(t).items():
        hit = [(a, k) for a, k in m if a.op in ("sum", "dot")]
        if len(hit) != 1 or hit[0][1] != 1:
            return None
        a = hit[0][0]
        rest = T.from_poly({tuple((b, k) for b, k in m if b is not a): c})
        if a.op == "sum":
            if a.args[1] not in (None, 0, -1):
                return None
            out = T.add(out, T.mul(rest, T.elem(a.args[0], j)))
        else:
            fs = a.args[0]
            if any(T.rank(f) not in (None, 1) for f in fs) or len(fs) != 2:
                return None
            out = T.add(out, T.mul(rest, T.elem(fs[0], j), T.elem(fs[1], j)))
    return out


def logs_equal(slope, ld, alg):
    """slope == exp(ld)"""
    return zero(slope / ratio_of_logs(ld, alg) - 1)


def scalar_bijection(ctx, R, w, x, Y, L, Xi, Li):
    """Y(x), its log-derivative L(x), the inverse Xi(x) and its log-derivative Li(x), of one coordinate"""
    alg = Alg({x: sp.Symbol("x")})
    xs = alg.symbol(x)
    slope = sp.diff(alg(Y), xs)
    if zero(slope):
        ctx.bad(R("invertible"), w, "the output does not depend on the input coordinate", Y)
        return
    try:
        good = logs_equal(slope, L, alg)
    except Exception as e:
        ctx.und(R("log-det"), w, f"{type(e).__name__}: {e}")
        return
    (ctx.ok if good else ctx.bad)(R("log-det"), w, "the reported log-determinant of a coordinate is the logarithm of its derivative",
                                  *(() if good else (L, Y)))
    back = T.subst(Xi, {x: Y}) if isinstance(Xi, Term) else Xi
    good = T.same(back, x) or zero(alg(back) - xs)
    (ctx.ok if good else ctx.bad)(R("inverse"), w, "inverse(forward(x)) = x for every coordinate", *(() if good else (back, x)))
    lb = T.subst(Li, {x: Y}) if isinstance(Li, Term) else Li
    good = T.same(T.neg(lb), L) or zero(alg(T.add(lb, L)))
    (ctx.ok if good else ctx.bad)(R("inverse-log-det"), w, "the inverse reports minus the forward log-determinant",
                                  *(() if good else (lb, T.neg(L))))


def free_of(t, x, alone):
    """t mentions x only through the coordinate `alone`"""
    return not (isinstance(t, Term) and T.contains(T.subst(t, {alone: T.sym("one-coordinate")}), x))


def cascade(t, x):
    """t chooses between expressions by comparing x with something"""
    return isinstance(t, Term) and any(u.op == "sel" and isinstance(u.args[0], Term) and T.contains(u.args[0], x)
                                       for u in T.walk(t))


def saturated(y):
    """the limiter the input passes through on its only way into y"""
    if not isinstance(y, Term):
        return None
    for u in T.walk(y):
        if u.op in ("clip", "max", "min") and T.contains(u, X) and not T.contains(T.subst(y, {u: T.sym("limited")}), X):
            return u
    return None


def c13_elementwise(ctx):
    """bijections without a mask act coordinate by coordinate"""
    n = 0
    for C in bijections(ctx):
        if has_mask(C):
            continue
        w = ctx.where(C, "forward")
        R = lambda s: f"C13.{s}[{C.name}]"
        con = keys.opaque_models(ctx.p)
        coordinate_parameters(C)
        f = pair(ctx, C, "forward", R("forward"), w, con)
        g = pair(ctx, C, "inverse", R("inverse"), ctx.where(C, "inverse"), con)
        if f is None or g is None:
            continue
        j = T.fresh("j", 0)
        x = T.elem(X, j)
        parts = [coord(t, j) for t in f[2:] + g[2:]]
        if cascade(parts[0], x):
            continue                       # piecewise: decided by C14
        n += 1
        flat = saturated(f[2])
        if flat is not None:
            ctx.bad(R("invertible"), w, "the output saturates: different inputs have the same image", flat)
            continue
        if any(not free_of(t, X, x) for t in parts):
            ctx.und(R("inverse"), w, "not a coordinate-wise map")
            continue
        scalar_bijection(ctx, R, w, x, *parts)
    return n


class Coupling:
    pass


def mask_of(I, s):
    m = I.freeze(I.get_attr(s, "mask", None))
    while isinstance(m, Term) and m.op in ("cast", "stop"):
        m = m.args[0]
    return m


def at_mask(t, m, j, val):
    """t, when coordinate j of the mask has value val"""
    mj = T.elem(m, j)

    def f(u):
        if u is mj or u.op == "cast" and u.args[0] is mj:
            return val
        if u.op == "sel":
            c, flip = u.args[0], False
            while isinstance(c, Term) and c.op in ("not", "cast"):
                flip ^= c.op == "not"
                c = c.args[0]
            if c is mj:
                return T.expand(u.args[1] if bool(val) != flip else u.args[2], f) if isinstance(
                    u.args[1] if bool(val) != flip else u.args[2], Term) else (u.args[1] if bool(val) != flip else u.args[2])
        return None
    return T.expand(t, f) if isinstance(t, Term) else t


def opaque_calls(*ts):
    """(conditioned argument, call) of the networks and inner bijectors used"""
    for t in ts:
        for u in T.walk(t):
            if u.op == "mcall" and u.args[1] in ("__call__", "forward", "inverse"):
                yield u


def c13_coupling(ctx):
    for C in bijections(ctx):
        if not has_mask(C):
            continue
        w = ctx.where(C, "forward")
        R = lambda s: f"C13.{s}[{C.name}]"
        con = inner_bijector(ctx.p)
        coordinate_parameters(C)
        f = pair(ctx, C, "forward", R("forward"), w, con)
        g = pair(ctx, C, "inverse", R("inverse"), ctx.where(C, "inverse"), con)
        if f is None or g is None:
            continue
        coupling(ctx, R, w, f, g)


def coupling(ctx, R, w, f, g):
    I, s = f[:2]
    m = mask_of(I, s)
    j = T.fresh("j", 0)
    x = T.elem(X, j)
    y, ld, xi, li = f[2], f[3], g[2], g[3]
    keep = [v for v in (0, 1) if T.same(at_mask(coord(y, j), m, j, v), x)]
    if len(keep) != 1:
        ctx.bad(R("pass-through"), w, "the coordinates selected by the mask are not passed through unchanged" if not keep
                else "no coordinate is transformed", coord(y, j), x)
        return
    p = keep[0]
    ctx.ok(R("pass-through"), w, f"coordinates with mask {p} are unchanged")
    ctx.same(R("inverse-pass-through"), w, at_mask(coord(xi, j), m, j, p), x, f"the inverse keeps the same coordinates")
    # what the networks see
    fc, gc = [], []
    for t, out in ((f[2:], fc), (g[2:], gc)):
        for u in opaque_calls(*t):
            c = u.args[2][-1]
            if c not in out:
                out.append(c)
    if not fc:
        ctx.und(R("condition"), w, "no conditioner found")
        return
    for c in dict.fromkeys(fc + gc):
        e = at_mask(coord(c, j), m, j, 1 - p)
        ctx.true(R("condition"), w, not (isinstance(e, Term) and T.contains(e, X)),
                 "what the conditioner sees does not depend on the coordinates being transformed", e)
    def view(c):
        e = coord(c, j)
        return tuple(at_mask(e, m, j, v) for v in (0, 1))

    fc, gc = {c: view(c) for c in fc}, {c: view(c) for c in gc}
    ref = next(iter(fc.values()))
    for c, e in [*fc.items(), *gc.items()]:
        if not T.same(e, ref):
            ctx.bad(R("same-condition"), w, "forward and inverse do not condition on one function of the kept coordinates", e, ref)
            return
    ctx.ok(R("same-condition"), w, "forward and inverse condition on the same function of the kept coordinates")
    cc = T.fresh("c", 1)
    mp = {c: cc for c in [*fc, *gc]}
    Y, Xi = (T.subst(at_mask(coord(t, j), m, j, 1 - p), mp) for t in (y, xi))
    Ls = []
    for t, nm in ((ld, "log-det"), (li, "inverse-log-det")):
        q = summand(t, j)
        if q is None:
            ctx.und(R(nm), w, f"not a sum over coordinates: {txt(t, 200)}")
            return
        z = at_mask(q, m, j, p)
        ctx.same(R(nm + ".kept"), w, z, 0, "kept coordinates contribute nothing to the log-determinant")
        Ls.append(T.subst(at_mask(q, m, j, 1 - p), mp))
    L, Li = Ls
    inner = [u for u in opaque_calls(Y) if len(u.args[2]) == 2]
    if not inner:
        parts = (Y, L, Xi, Li)
        if any(not free_of(t, X, x) for t in parts):
            ctx.und(R("inverse"), w, "not a coordinate-wise map at fixed condition")
            return
        scalar_bijection(ctx, R, w, x, *parts)
        return
    # an inner bijector: forward of it in forward, inverse of it in inverse, its own log-determinants
    b = inner[0].args[0]
    for nm, got, meths, k in (("forward", Y, ("__call__", "forward"), 0), ("log-det", L, ("__call__", "forward"), 1),
                              ("inverse", Xi, ("inverse",), 0), ("inverse-log-det", Li, ("inverse",), 1)):
        u = next(iter(opaque_calls(got)), None) if isinstance(got, Term) else None
        good = u is not None and u.args[0] is b and u.args[1] in meths and T.same(got, T.elem(T.elem(u, k), j)) \
            and len(u.args[2]) == 2 and u.args[2][1] is cc and T.same(at_mask(coord(u.args[2][0], j), m, j, 1 - p), x)
        ctx.true(R("inner." + nm), w, good, f"a transformed coordinate takes output {k} of the inner bijector's {meths[-1]}", got)


# ------------------------------------------------------------------ composition of layers

class Abort(Exception):
    pass


def opaque_layers(p):
    """forward / inverse of any Bijection are uninterpreted"""
    B = p.find_class("Bijection")

    def contract(I, obj, name, args, kw, node):
        if name not in ("forward", "inverse", "__call__") or not isinstance(obj, Term) or obj is SELF:
            return None
        ty = I.typeof(obj)
        if ty is not None and B not in ty[0].mro() and not (ty[0].lookup("forward") and ty[0].lookup("inverse")):
            return None
        if ty is None and not layerlike(obj):
            return None
        if not args:
            return None
        t = mk("mcall", I.freeze(obj), "forward" if name == "__call__" else name, (I.freeze(args[0]),))
        out = mk("elem", t, 0), mk("elem", t, 1)
        T.RANK[out[0]] = 1
        T.RANK[out[1]] = 0
        return out
    return contract


def layerlike(o):
    while isinstance(o, Term) and o.op in ("elem", "attr"):
        if o.op == "attr" and o.args[0] is SELF:
            return True
        o = o.args[0]
    return False


def flows(ctx):
    B = ctx.p.find_class("NFModel")
    for C in ctx.p.subclasses(B):
        r = C.lookup("forward")
        if r and not ctx.p.is_abstract(r[2]):
            yield C


def chain(t, x, meth):
    """the layers of a nest of layer calls around x, innermost first, or None"""
    out = []
    while t is not x:
        if not (isinstance(t, Term) and t.op == "elem" and T.const_of(t.args[1]) == 0 and isinstance(t.args[0], Term)
                and t.args[0].op == "mcall" and t.args[0].args[1] == meth):
            return None
        out.append(t.args[0])
        t = t.args[0].args[2][0]
    return out[::-1]


def layered(ctx, R, w, r, meth):
    """(layers of one iteration as functions of the forward index, n) of a scanned composition"""
    I, s, y, ld = r
    if not (isinstance(y, Term) and y.op == "fin"):
        ctx.und(R("composition"), w, f"layers are not applied by one loop: {txt(y, 200)}")
        return None
    lp, k = y.args
    phis, inits, nexts, ys, idx, n, rev = lp.args
    if not T.same(inits[k], X):
        ctx.bad(R("composition"), w, "the first layer is not applied to the input", inits[k], X)
        return None
    ch = chain(nexts[k], phis[k], meth)
    if ch is None:
        got = [u.args[1] for u in T.walk(nexts[k]) if u.op == "mcall"]
        if set(got) - {meth} and got:
            ctx.bad(R("composition"), w, f"a layer is applied with {sorted(set(got))} where {meth} is needed", nexts[k])
        else:
            ctx.und(R("composition"), w, f"one iteration is not a nest of layer calls: {txt(nexts[k], 200)}")
        return None
    # log-determinant
    if not (isinstance(ld, Term) and ld.op == "fin"):
        ctx.bad(R("log-det"), w, "the log-determinants of the layers are not accumulated", ld)
        return None
    lp2, k2 = ld.args
    ph2, in2, nx2, _, idx2, n2, rev2 = lp2.args
    kx = [q for q in range(len(ph2)) if q != k2 and chain(nx2[q], ph2[q], meth) is not None]
    want = None
    for q in kx:
        c2 = chain(nx2[q], ph2[q], meth)
        want = T.add(ph2[k2], *[mk("elem", u, 1) for u in c2])
        if T.same(nx2[k2], want):
            break
    ctx.same(R("log-det.start"), w, in2[k2], 0, "the log-determinant starts at 0")
    if want is None:
        ctx.bad(R("log-det"), w, "the log-determinant does not accumulate what the layers report", nx2[k2])
    else:
        ctx.same(R("log-det"), w, nx2[k2], want, "every layer of an iteration adds its log-determinant once")
    return [sequential(u.args[0]) for u in ch], idx, n, rev


def sequential(t):
    """an entry of seq.layers is the same entry of the eqx.nn.Sequential"""
    return T.expand(t, lambda u: u.args[0] if u.op == "attr" and u.args[1] == "layers" and u.args[0] is not SELF else None)


def c13_compose(ctx):
    for C in flows(ctx):
        w, wi = ctx.where(C, "forward"), ctx.where(C, "inverse")
        R = lambda s: f"C13.{s}[{C.name}]"
        con = opaque_layers(ctx.p)
        f = pair(ctx, C, "forward", R("composition"), w, con)
        g = pair(ctx, C, "inverse", R("composition"), wi, con)
        if f is None or g is None:
            continue
        a = layered(ctx, R, w, f, "forward")
        b = layered(ctx, lambda s: R("inverse-" + s), wi, g, "inverse")
        if a is None or b is None:
            continue
        la, ia, na, _ = a
        lb, ib, nb, _ = b
        i = T.fresh("i", 0)
        ctx.same(R("inverse.count"), wi, nb, na, "the inverse undoes as many layers as forward applies")
        fa = [T.subst(t, {ia: i}) for t in la]
        # iteration i of the inverse undoes iteration n-1-i of forward, innermost layer last
        fb = [T.subst(t, {ib: T.sub(T.sub(na, 1), i)}) for t in lb]
        ctx.same(R("inverse.order"), wi, tuple(fb), tuple(fa[::-1]),
                 "the inverse undoes the layers of forward last to first, within and across iterations")


# ------------------------------------------------------------------ masks are not parameters

BOOLEAN = ("lt0", "le0", "eq0", "not", "and", "or", "isfinite", "isnan", "isinf")


def dtype_kind(I, t):
    """'bool', 'int', 'float' or None (not known) of an array value"""
    if isinstance(t, bool):
        return "bool"
    if not isinstance(t, Term):
        c = T.const_of(t)
        return None if c is None else "int" if c.denominator == 1 and not isinstance(t, float) else "float"
    if t in I.floats:
        return None if t in I.others else "float"

    def join(xs):
        ks = [dtype_kind(I, x) for x in xs]
        if "float" in ks:
            return "float"
        if None in ks or not ks:
            return None
        return "int" if "int" in ks else "bool"
    o = t.op
    if o == "cast":
        n = str(t.args[1])
        return "bool" if n == "bool" else "float" if "float" in n else "int" if "int" in n else None
    if o in BOOLEAN:
        return "bool"
    if o == "full":
        return join([t.args[1]])
    if o == "sel":
        return join(t.args[1:3])
    if o == "poly":
        if any(c.denominator != 1 for _, c in t.args[0]):
            return "float"
        k = join([a for m, _ in t.args[0] for a, _ in m] or [0])
        return "int" if k == "bool" else k
    if o == "arange":
        return join([x for x in t.args if not (isinstance(x, Term) and x.op in ("attr", "sym", "len", "poly"))] or [0])
    if o in ("mod", "floordiv"):
        return join([x for x in t.args if not (isinstance(x, Term) and T.rank(x) == 0)] or [None])
    if o == "where":
        return join(t.args[1:3])
    if o in ("dus", "setax", "flip", "slice", "elem", "newax", "tile", "repeat"):
        return dtype_kind(I, t.args[0])
    if o == "concat":
        return join(t.args[0])
    if o == "comp":
        return dtype_kind(I, t.args[1])
    return None


def c13_masks(ctx):
    """the masks a flow is built with are not trainable leaves"""
    n = 0
    for cls, names in keys.INIT:
        C = ctx.p.maybe_class(cls)
        if C is None:
            continue
        I = Interp(ctx.p, tag_sites=True)
        b = I.instantiate(C, [], {k: T.sym(k) for k in names.split()}, None)
        ctx.absorb(I)
        w = ctx.where(C, "__init__")
        seen = set()
        for v, _ in keys.reachable(I, b):
            for u in T.walk(v):
                if u.op != "new" or u in seen:
                    continue
                seen.add(u)
                for f, m in I.st.heap.get(u, {}).items():
                    m = I.freeze(m)
                    if f not in ("_mask", "mask") or "mask" in names.split() and T.contains(m, T.sym("mask")):
                        continue
                    ty = I.typeof(u)
                    n += 1
                    k = dtype_kind(I, m)
                    d = f"{ty[0].name if ty else 'layer'}: the mask is a boolean or integer array, so that training leaves it 0 or 1"
                    R = f"C13.mask.fixed[{cls}]"
                    if k is None or k == "float" and ty is not None and static_field(ty[0], f):
                        ctx.und(R, w, f"{d}: {txt(m)}")
                    else:
                        ctx.true(R, w, k != "float", d, m)
    return n


def static_field(C, name):
    return any(isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None
               for K in C.mro() if hasattr(K, "node") for s in K.node.body)
