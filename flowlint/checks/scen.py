"""Entry points of the analysis: how each public operation is started symbolically."""
from .. import terms as T
from ..terms import Term, mk
from ..project import AnchorMissing
from ..interp import Interp, TYPES, CALLABLES


def argval(names, args, kw, k, default=None):
    """argument `names[k]` of an opaque call"""
    if k < len(args):
        return args[k]
    return kw.get(names[k], default)


def nf_contract(p):
    """model.sample / model.log_prob of an abstract flow are uninterpreted: a key and a
    count determine the rows, log_prob is a function of the point."""
    base = {p.maybe_class("NFModel"), p.maybe_class("FlowMatchingModel")} - {None}

    def is_model(I, obj):
        ty = I.typeof(obj) if isinstance(obj, Term) else None
        return ty is not None and any(b in ty[0].mro() for b in base)

    def contract(I, obj, name, args, kw, node):
        if name not in ("sample", "log_prob", "train") or not is_model(I, obj):
            return None
        o = I.freeze(obj)
        if name == "sample":
            key = argval(("rng_key", "n_samples"), args, kw, 0)
            n = argval(("rng_key", "n_samples"), args, kw, 1, kw.get("num_samples"))
            t = mk("mcall", o, "sample", (I.freeze(key), I.freeze(n)))
            I.emit("app", node, fn=mk("meth", o, "sample"), args=t.args[2], term=t)
            return t
        if name == "log_prob":
            x = args[0] if args else kw.get("x")
            t = mk("mcall", o, "log_prob", (I.freeze(x),))
            T.RANK[t] = 0
            return t
        return None
    return contract


def _sample_dims(t):
    return [t.args[2][1], mk("attr", t.args[0], "_n_features")]


def _group_rows(t, k):
    """a kernel that is handed n_steps returns that many rows of everything (decided by kernels.py)"""
    return group_count(t.args[2][4]) if len(t.args[2]) > 4 and k in (0, 1, 2) else None


def group_count(d):
    """the number of steps the data handed to a kernel asks for"""
    return dict(d.args[1]).get("n_steps") if isinstance(d, Term) and d.op == "dct" else None


T.LENGTHS["kernel"] = _group_rows
T.SHAPES[("mcall", "sample")] = _sample_dims
T.SHAPES[("mcall", "log_prob")] = lambda t: []


def new_self(cls, name="self"):
    s = T.sym(name)
    TYPES[s] = (cls, True)
    return s


def run_kernel(ctx, cls, **kw):
    """kernel.kernel(rng_key, position, log_prob, logpdf, data) on symbolic arguments"""
    C = ctx.p.find_class(cls) if isinstance(cls, str) else cls
    I = Interp(ctx.p, contract=nf_contract(ctx.p), **kw)
    names = ("rng_key", "position", "log_prob", "logpdf", "data")
    k, x, lp, f, d = [T.sym(n) for n in names]
    T.RANK[x] = 1
    T.RANK[lp] = 0
    T.RANK[("ret", f)] = 0
    r = I.call(I.get_attr(new_self(C), "kernel", None), [k, x, lp, f, d], {}, None)
    ctx.absorb(I)
    if isinstance(r, Term) and r.op in ("tup", "lst"):
        r = r.args[0]
    return I, (tuple(I.freeze(v) for v in r) if isinstance(r, tuple) else r)


KEY, POS, LP, F, DATA = [T.sym(n) for n in ("rng_key", "position", "log_prob", "logpdf", "data")]


def lpdf(x, d=None):
    t = mk("app", F, (x, DATA if d is None else d))
    T.RANK[t] = 0
    return t


# lists of names whose length is part of the strategy's contract
NAME_LISTS = {"TakeSteps": ("buffer_names", 3), "ParallelTempering": ("tempered_buffer_names", 2)}


def strategy_self(I, C):
    s = new_self(C)
    for k in C.mro():
        k = getattr(k, "name", k)
        if k in NAME_LISTS:
            f, n = NAME_LISTS[k]
            I.st.setfield(s, f, I.new_list(tuple(mk("elem", mk("attr", s, f), i) for i in range(n))))
    return s


def run_strategy(ctx, cls, rank=2, **kw):
    """strategy(rng_key, resources, initial_position, data) on symbolic arguments"""
    C = ctx.p.find_class(cls) if isinstance(cls, str) else cls
    I = Interp(ctx.p, **kw)
    k, res, x, d = [T.sym(n) for n in ("rng_key", "resources", "initial_position", "data")]
    T.RANK[x] = rank
    r = I.call(I.get_attr(strategy_self(I, C), "__call__", None), [k, res, x, d], {}, None)
    ctx.absorb(I)
    if isinstance(r, Term) and r.op in ("tup", "lst"):
        r = r.args[0]
    return I, r


RES, X0 = T.sym("resources"), T.sym("initial_position")


def static_conds(*ts):
    """boolean conditions in the terms that do not depend on a bound variable and are
    decided before any sampling (no random draw, no density evaluation)"""
    out = []
    for t in ts:
        if t is None:
            continue
        for u in T.walk(t):
            if u.op == "sel" and u.args[0] not in out:
                c = u.args[0]
                if not any(w.op in ("bv", "rnd", "app") or w.op == "mcall" and w.args[1] != "sample"
                           for w in T.walk(c)):
                    out.append(c)
    return out


def configurations(ts, limit=4):
    """the values of ts under each combination of static conditions"""
    ts = tuple(ts)
    cs = static_conds(*ts)
    if not cs:
        yield (), ts
        return
    if limit == 0:
        return
    c = cs[0]
    for b in (True, False):
        for name, v in configurations(tuple(T.assume(t, c, b) for t in ts), limit - 1):
            yield ((c, b),) + name, v
