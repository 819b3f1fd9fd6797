"""Random keys: every draw has a key of its own, derived from the caller's key.

The key of every live draw is written as a derivation path from the caller's key
(split n, child i / fold-in d / i-th link of a chain of splits carried by a loop). Two draws
may use two keys only if the paths part at some step into different children."""
import ast

from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp
from . import scen
from .scen import KEY, DATA, RES, X0, argval
from .base import tainted, txt, relsite

DRAWS = ("kernel", "sample", "train")


class Key(Exception):
    pass


class Paths:
    """derivation paths; `chains` maps a loop-carried key to its (init, next) pair"""

    def __init__(self, roots=(KEY,)):
        self.roots = set(roots)
        self.phi = {}
        self.memo = {}

    def iskey(self, t):
        """t denotes a key (or an array of keys) derived from a root or a constant"""
        if not isinstance(t, Term):
            return False
        if t in self.roots or t.op in ("keysplit", "foldin", "key"):
            return True
        if t.op == "elem":
            return self.iskey(t.args[0])
        if t.op in ("pre", "fin"):
            return self.iskey(t.args[0].args[1][t.args[1]])
        if t in self.phi:
            lp, k, _ = self.phi[t]
            return self.iskey(lp.args[1][k])
        if t.op in ("sel",):
            return self.iskey(t.args[1]) and self.iskey(t.args[2])
        if t.op in ("slice", "flip", "cast", "split2", "flat"):
            return self.iskey(t.args[0])
        return False

    def suffix(self, lp, k):
        """what one iteration does to the carried key: its path relative to the carried value"""
        phis, inits, nexts = lp.args[:3]
        nx = nexts[k]
        sub = Paths({phis[k]})
        try:
            return sub.path(nx)
        except Key:
            return None

    def path(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self._path(t)
        return r

    def _path(self, t):
        if t in self.roots:
            return ()
        if not isinstance(t, Term):
            raise Key(f"not a key: {t!r}")
        if t.op == "elem":
            x, i = t.args
            if isinstance(x, Term) and x.op == "keysplit":
                return self.path(x.args[0]) + (("s", x.args[1], i),)
            if isinstance(x, Term) and x.op in ("key", "foldin", "pre", "fin") or x in self.roots or x in self.phi:
                return self.path(x) + (("e", i),)
            if isinstance(x, Term) and x.op == "elem":
                return self.path(x) + (("e", i),)
        if t.op == "keysplit":
            return self.path(t.args[0]) + (("s", t.args[1], None),)
        if t.op == "foldin":
            return self.path(t.args[0]) + (("f", t.args[1]),)
        if t.op in ("pre", "fin"):
            lp, k = t.args[:2]
            init = self.path(lp.args[1][k])
            s = self.suffix(lp, k)
            if s is None:
                raise Key(f"carried key is not derived from itself: {txt(lp.args[2][k], 120)}")
            return init + ((("c", s, t.args[2]),) if t.op == "pre" else (("z", s),))
        if t in self.phi:
            lp, k, idx = self.phi[t]
            init = self.path(lp.args[1][k])
            s = self.suffix(lp, k)
            if s is None:
                raise Key(f"carried key is not derived from itself: {txt(lp.args[2][k], 120)}")
            return init + (("c", s, idx),)
        if t.op == "mcall" and t.args[1] in DRAWS:
            k = key_arg(t)
            if k is not None:
                return self.path(k) + (("r", t.args[1]),)
        if t.op == "elem" and isinstance(t.args[0], Term) and t.args[0].op == "mcall":
            return self.path(t.args[0])
        if t.op == "key":
            raise Key("constant key: " + txt(t, 60))
        raise Key(f"key of unknown origin: {txt(t, 160)}")


def key_arg(t):
    a = t.args[2]
    if t.args[1] in ("kernel", "sample", "train") and a:
        return a[0]
    return None


def pathvars(p):
    out = set()
    for e in p:
        for x in e[1:]:
            if isinstance(x, tuple):
                out |= pathvars(x) if x and isinstance(x[0], tuple) else set()
            out |= set(T.free_vars(x)) if isinstance(x, Term) else set()
    return out


def apart(i, j):
    """True: different children; False: the same child; None: unknown"""
    if i is None or j is None:
        return False
    if T.same(i, j):
        return False
    d = T.sub(i, j)
    c = T.const_of(d)
    if c is not None:
        return c != 0
    ci, cj = T.const_of(i), T.const_of(j)
    a, b = (T.free_vars(i) if isinstance(i, Term) else frozenset()), (T.free_vars(j) if isinstance(j, Term) else frozenset())
    # an index variable against a constant it can take, or two index variables of two loops
    if isinstance(i, Term) and i.op in ("bv", "var") and isinstance(j, Term) and j.op in ("bv", "var"):
        return False
    if isinstance(i, Term) and i.op in ("bv", "var") and cj is not None and cj >= 0:
        return False
    if isinstance(j, Term) and j.op in ("bv", "var") and ci is not None and ci >= 0:
        return False
    for u, v in ((i, cj), (j, ci)):
        if v is not None and isinstance(u, Term):
            e = T.to_poly(T.sub(u, v))
            if e.get((), 0) > 0 and all(c > 0 for c in e.values()):
                return True
    return None


def compare(p, q):
    """'apart' | 'overlap' | 'unknown'"""
    for a, b in zip(p, q):
        if a[0] != b[0]:
            kinds = {a[0], b[0]}
            if kinds == {"c", "z"}:
                s, rest = (a[1], p[p.index(a) + 1:]) if a[0] == "c" else (b[1], q[q.index(b) + 1:])
                return "apart" if not prefix(s, rest) else "overlap"
            if kinds == {"r", "u"}:
                return "apart"        # what an operation hands on is its own obligation
            if kinds & {"r", "u"}:
                return "overlap"      # the opaque operation consumed the key the other one splits
            if kinds & {"c", "z"}:
                # a loop that starts from this key; the loop's first link is the key itself
                c, other, rest = (a, q[q.index(b):], p[p.index(a) + 1:]) if a[0] in "cz" else \
                    (b, p[p.index(a):], q[q.index(b) + 1:])
                if c[0] == "c":
                    r = compare(rest, other)
                    if r != "apart":
                        return r
                return compare(c[1], other)
            return "unknown"
        if a[0] == "s":
            if not T.same(a[1], b[1]):
                return "overlap"
            r = apart(a[2], b[2])
            if r is True:
                return "apart"
            if r is None:
                return "unknown"
            continue
        if a[0] in ("f", "e"):
            r = apart(a[1], b[1])
            if r is True:
                return "apart"
            if r is None:
                return "unknown"
            continue
        if a[0] == "c":
            if a[1] != b[1]:
                return "unknown"
            # iterations compared at the same index; distinct iterations are the loop's own obligation
            continue
        if a[0] == "z" and a[1] != b[1]:
            return "unknown"
    return "overlap"


def prefix(s, rest):
    """one of the two derivations is a prefix of the other (same children)"""
    return compare(s, rest) == "overlap"


class Draw:
    def __init__(self, term, key):
        self.term, self.key = term, key
        t = term.args[-1] if term.op == "rnd" and isinstance(term.args[-1], str) else ""
        self.site = t[1:].split("|")[0] if t.startswith("@") else ""

    def name(self):
        if self.term.op == "Linear":
            return f"initial weights of Linear({txt(self.term.args[0], 60)}, {txt(self.term.args[1], 60)})"
        return self.term.args[0] if self.term.op == "rnd" else f"{txt(self.term.args[0], 60)}.{self.term.args[1]}"


class Live:
    """the draws that the given values depend on, with the lanes (vmapped or scanned
    indices) in which the value differs but the draw does not"""

    def __init__(self, values, roots=(KEY,)):
        self.P = Paths(roots)
        self.draws = {}
        self.shared = []
        self.memo = set()
        self.opened = {}
        self.has = {}
        for v in values:
            self.go(v, frozenset())

    def open(self, lp):
        """the loop's body over variables of its own"""
        if lp not in self.opened:
            phis, inits, nexts, ys, idx, n, rev = lp.args
            i = T.fresh("it", 0)
            mp = {idx: i}
            for k, p in enumerate(phis):
                mp[p] = T.fresh("carry")
                if T.rank(p) is not None:
                    T.RANK[mp[p]] = T.rank(p)
                self.P.phi[mp[p]] = (lp, k, i)
            self.opened[lp] = (tuple(T.subst(y, mp) for y in nexts), tuple(T.subst(y, mp) for y in ys), i)
        return self.opened[lp]

    def drawn(self, x):
        """some draw occurs in x"""
        if isinstance(x, tuple):
            return any([self.drawn(y) for y in x])
        if not isinstance(x, Term):
            return False
        r = self.has.get(x)
        if r is None:
            self.has[x] = False
            r = self.has[x] = x.op in ("rnd", "Linear") or x.op == "mcall" and x.args[1] in DRAWS or any([self.drawn(y) for y in x.args])
        return r

    def go(self, x, lanes):
        if isinstance(x, tuple):
            for y in x:
                self.go(y, lanes)
            return
        if not isinstance(x, Term) or (x, lanes) in self.memo:
            return
        self.memo.add((x, lanes))
        if x.op == "loop":
            nexts, ys, idx = self.open(x)
            for y in x.args[1]:
                self.go(y, lanes)
            for y in nexts + ys:
                self.go(y, lanes | {idx})
            self.go(x.args[5], lanes)
            return
        if x.op == "comp":
            if x not in self.opened:
                v = T.fresh("lane", 0)
                body = T.subst(x.args[1], {x.args[0]: v})
                mp = {}
                for u in T.walk(body):
                    if u.op == "pre" and linear(u.args[2], v):
                        # entry v is made from what a loop carries into its iteration v (or into every so many-th)
                        mp[u] = c = T.fresh("carry", T.rank(u))
                        self.P.phi[c] = (u.args[0], u.args[1], u.args[2])
                self.opened[x] = T.subst(body, mp), v
            body, v = self.opened[x]
            self.go(body, lanes | {v})
            return
        if x.op in ("len", "shape", "rank"):
            return
        if not self.drawn(x):
            return
        if x.op == "elem":
            self.go(x.args[1], lanes)
            ix = T.free_vars(x.args[1])
            self.go(x.args[0], frozenset(v for v in lanes if v not in ix and not any(
                isinstance(w, Term) and v in T.free_vars(w) for w in (x.args[1],))))
            return
        if x.op in ("rnd", "Linear") or x.op == "mcall" and x.args[1] in DRAWS and key_arg(x) is not None:
            key = x.args[1] if x.op == "rnd" else x.args[2] if x.op == "Linear" else key_arg(x)
            d = self.draws.setdefault(x, Draw(x, key))
            try:
                p = self.P.path(key)
            except Key:
                p = None
            if p is not None:
                for v in lanes:
                    r = own(p, v)
                    if r is not True:
                        self.shared.append((d, v, r))
            for y in x.args[2:]:
                if y is not key:
                    self.go(y, frozenset())
            return
        for y in x.args:
            self.go(y, lanes)


def chain_ok(p):
    """every link of a carried chain hands on a key disjoint from the one it uses"""
    for k, e in enumerate(p):
        if e[0] == "c":
            if not e[1]:
                return "the key carried by the loop is never advanced"
            if compare(e[1], p[k + 1:]) == "overlap":
                return "an iteration uses the key it hands to the next one (or an ancestor of it)"
            if compare(e[1], p[k + 1:]) == "unknown":
                return None
    return True


def indices(p):
    for e in p:
        if e[0] == "c":
            yield from indices(e[1])
            yield e[2]
        elif e[0] == "z":
            yield from indices(e[1])
        else:
            yield from (x for x in e[1:] if isinstance(x, Term))


def own(p, v):
    """True: every value of the lane v has a path of its own; False: all or several share one"""
    if v not in pathvars(p):
        return False
    groups = []
    for ix in indices(p):
        if not isinstance(ix, Term) or v not in T.free_vars(ix):
            continue
        if linear(ix, v):
            return True
        if ix.op == "floordiv" and ix.args[0] is v:
            groups.append(ix.args[1])
        else:
            groups.append(None)
    if groups and None not in groups and all(T.same(g, groups[0]) for g in groups):
        return False
    return None


def linear(ix, v):
    """the index is v times a size, plus something without v"""
    if ix is v:
        return True
    if not isinstance(ix, Term):
        return False
    ms = [m for m in T.to_poly(ix) if any(v in T.free_vars(a) for a, _ in m)]
    return len(ms) == 1 and all(a is v and e == 1 or v not in T.free_vars(a) for a, e in ms[0])


def anon(t):
    """t with its index variables made anonymous: the same draw at another index is equal"""
    mp = {v: HOLE for v in T.free_vars(t) if isinstance(v, Term) and (v.op == "bv" or is_fresh(v))}
    return T.subst(t, mp)


HOLE = T.sym("any-index")


def is_fresh(v):
    return v.op == "var" and "#" in T.show(v)


def same_draw(a, b):
    return a.term is b.term or a.key is not None and anon(a.term) is anon(b.term)


def discipline(ctx, rule, where, values, returned=(), lanes=True, roots=(KEY,)):
    """the obligations for the values one operation produces (and the key it returns)"""
    L = Live(values, roots)
    ds = list({anon(d.term): d for d in L.draws.values()}.values())
    paths = []
    for d in ds:
        nm = f"{d.name()}" + (f" at {relsite(d.site)}" if d.site else "")
        w = f"{relsite(d.site)} {where[where.rfind('('):] if '(' in where else where}" if d.site else where
        try:
            p = L.P.path(d.key)
        except Key as e:
            if "constant key" in str(e):
                ctx.bad(f"{rule}.derived", w, f"{nm}: the draw uses a fixed key, not one derived from the caller's", d.key)
            elif "not derived from itself" in str(e):
                ctx.und(f"{rule}.derived", w, f"{nm}: {e}")
            else:
                ctx.und(f"{rule}.derived", w, f"{nm}: {e}")
            continue
        ctx.ok(f"{rule}.derived", w, f"{nm}: key derived from the caller's key, path {show(p)}")
        c = chain_ok(p)
        if c is True:
            ctx.ok(f"{rule}.advance", w, f"{nm}: fresh in every iteration")
        elif c is None:
            ctx.und(f"{rule}.advance", w, f"{nm}: {show(p)}")
        else:
            ctx.bad(f"{rule}.advance", w, f"{nm}: {c}", d.key)
        paths.append((d, p if d.term.op in ("rnd", "Linear") else p + (("u", d.term.args[1]),), nm, w))
    for r in returned:
        if r is None:
            continue
        try:
            p = L.P.path(r)
            paths.append((None, p, "the key handed on", where))
            c = chain_ok(p)
            if c not in (True, None):
                ctx.bad(f"{rule}.advance", where, c, r)
        except Key as e:
            (ctx.bad if "constant key" in str(e) else ctx.und)(f"{rule}.returned", where, f"returned key: {e}")
    for a in range(len(paths)):
        for b in range(a):
            d1, p1, n1, w1 = paths[a]
            d2, p2, n2, w2 = paths[b]
            if d1 is not None and d2 is not None and same_draw(d1, d2):
                continue
            r = compare(p1, p2)
            if r == "apart":
                ctx.ok(f"{rule}.distinct", w1, f"{n1} / {n2}")
            elif r == "overlap":
                ctx.bad(f"{rule}.distinct", w1, f"{n1} and {n2} use the same key, or one uses a key the other's was "
                                                f"split from", tuple(x for x in (d1 and d1.key, d2 and d2.key) if x is not None))
            else:
                ctx.und(f"{rule}.distinct", w1, f"{n1} / {n2}: {show(p1)} against {show(p2)}")
    if lanes:
        for d, v, r in L.shared:
            w = f"{relsite(d.site)} {where[where.rfind('('):]}" if d.site and "(" in where else where
            if r is None:
                ctx.und(f"{rule}.lanes", w, f"{d.name()}: whether {T.show(v)} has a key of its own: {txt(d.key, 200)}")
                continue
            ctx.bad(f"{rule}.lanes", w, f"{d.name()}: chains, rungs or steps that are computed separately share one draw",
                    d.key)
    return L, paths


def show(p):
    out = []
    for e in p:
        if e[0] == "u":
            continue
        if e[0] == "s":
            out.append(f"split({txt(e[1], 40)})[{txt(e[2], 60)}]")
        elif e[0] == "c":
            out.append(f"link {txt(e[2], 40)} of chain <{show(e[1])}>")
        elif e[0] == "z":
            out.append(f"end of chain <{show(e[1])}>")
        else:
            out.append(f"{e[0]}({', '.join(txt(x, 40) for x in e[1:])})")
    return " / ".join(out) or "itself"


# ------------------------------------------------------------------ operations

def c07_kernels(ctx):
    for cls in ("GaussianRandomWalk", "MALA", "HMC", "NFProposal"):
        I, r = scen.run_kernel(ctx, cls, tag_sites=True)
        w = ctx.where(cls, "kernel")
        if not isinstance(r, tuple):
            ctx.und(f"C07.{cls}", w, "result not understood")
            continue
        for cfg, vals in scen.configurations(r):
            discipline(ctx, f"C07.{cls}", w, vals)


def c07_steps(ctx):
    from . import steps
    for r in steps.runs(ctx, "C07.steps"):
        vals = [r.final[k] for k in range(3)]
        discipline(ctx, f"C07.{r.cls}", r.where, vals, [r.key])


def c07_pt(ctx):
    from . import pt
    I, ret = scen.run_strategy(ctx, pt.CLS, tag_sites=True)
    w = ctx.where(pt.CLS, "__call__")
    vals = [I.freeze(ret[2])]
    BN = pt.at("tempered_buffer_names")
    for k in (0, 1):
        vals.append(I.freeze(I.get_attr(mk("elem", RES, mk("elem", BN, k)), "data", None)))
    discipline(ctx, "C07.ParallelTempering", w, vals[:2], [I.freeze(ret[0])])


def tuples(C, name):
    """parameters annotated as tuples of fixed length, as that many values"""
    out = {}
    for a in C.lookup(name)[2].args.args:
        t = a.annotation
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in ("tuple", "Tuple") and \
                isinstance(t.slice, ast.Tuple) and not any(isinstance(e, ast.Constant) for e in t.slice.elts):
            out[a.arg] = tuple(T.elem(T.sym(a.arg), i) for i in range(len(t.slice.elts)))
    return out


def run_method(ctx, cls, name, args, ranks=(), contract=None, kw=(), given=None, **opts):
    """cls.name(*symbols) on a symbolic instance"""
    C = ctx.p.find_class(cls) if isinstance(cls, str) else cls
    I = Interp(ctx.p, contract=contract, **opts)
    a = []
    for n in args:
        t = T.sym(n)
        if n in dict(ranks):
            T.RANK[t] = dict(ranks)[n]
        a.append((given or {}).get(n, t))
    s = scen.new_self(C)
    r = I.call(I.get_attr(s, name, None), a, {n: T.sym(n) for n in kw}, None)
    ctx.absorb(I)
    return I, s, r


def opaque_models(p, trains=True):
    """sample / log_prob / train of any flow are uninterpreted functions of their key"""
    nf = scen.nf_contract(p)
    base = {p.maybe_class("NFModel"), p.maybe_class("FlowMatchingModel")} - {None}
    nets = {p.maybe_class("MLP")} - {None}

    def contract(I, obj, name, args, kw, node):
        if name == "__call__" and isinstance(obj, Term) and len(args) == 1:
            ty = I.typeof(obj)
            if ty is not None and any(b in ty[0].mro() for b in nets):
                t = mk("mcall", I.freeze(obj), "__call__", (I.freeze(args[0]),))
                if T.rank(args[0]) is not None:
                    T.RANK[t] = T.rank(args[0])
                return t
        if name != "train":
            return nf(I, obj, name, args, kw, node)
        ty = I.typeof(obj) if isinstance(obj, Term) else None
        if not trains or ty is None or not any(b in ty[0].mro() for b in base):
            return None
        names = ("rng", "data", "optim", "state", "num_epochs", "batch_size", "verbose")
        a = tuple(I.freeze(argval(names, args, kw, k)) for k in range(6))
        t = mk("mcall", I.freeze(obj), "train", a)
        I.emit("app", node, fn=mk("meth", I.freeze(obj), "train"), args=a, term=t)
        return tuple(mk("elem", t, k) for k in range(4))
    return contract


def models(ctx):
    """concrete flow classes"""
    for base in ("NFModel", "FlowMatchingModel"):
        B = ctx.p.maybe_class(base)
        if B is None:
            continue
        for C in [B] + ctx.p.subclasses(B):
            r = C.lookup("sample")
            if r and not ctx.p.is_abstract(r[2]):
                yield C


def c07_models(ctx):
    for C in models(ctx):
        w = ctx.where(C, "sample")
        I, s, r = run_method(ctx, C, "sample", ("rng_key", "n_samples"), tag_sites=True)
        discipline(ctx, f"C07.{C.name}.sample", w, [I.freeze(r)])
    D = ctx.p.maybe_class("Distribution")
    for C in ctx.p.subclasses(D) if D is not None else ():
        r = C.lookup("sample")
        if r and not ctx.p.is_abstract(r[2]):
            I, s, r = run_method(ctx, C, "sample", ("rng_key", "n_samples"), tag_sites=True)
            discipline(ctx, f"C07.{C.name}.sample", ctx.where(C, "sample"), [I.freeze(r)])
    for C in models(ctx):
        w = ctx.where(C, "train")
        I, s, r = run_method(ctx, C, "train", ("rng", "data", "optim", "state", "num_epochs", "batch_size", "verbose"),
                             contract=opaque_models(ctx.p, trains=False), tag_sites=True, given=tuples(C, "train"))
        if not isinstance(r, tuple) or len(r) != 4:
            ctx.und(f"C07.{C.name}.train", w, "train does not return four values")
            continue
        discipline(ctx, f"C07.{C.name}.train", w, [I.freeze(x) for x in r[1:]], [I.freeze(r[0])],
                   roots=(T.sym("rng"),))


def c07_strategies(ctx):
    for cls in ("TrainModel", "AdamOptimization"):
        I = Interp(ctx.p, contract=opaque_models(ctx.p), tag_sites=True)
        C = ctx.p.find_class(cls)
        k, res, x, d = KEY, RES, X0, DATA
        T.RANK[x] = 2
        r = I.call(I.get_attr(scen.new_self(C), "__call__", None), [k, res, x, d], {}, None)
        ctx.absorb(I)
        w = ctx.where(cls, "__call__")
        if not isinstance(r, tuple) or len(r) != 3:
            ctx.und(f"C07.{cls}", w, "the strategy does not return a triple")
            continue
        vals = [I.freeze(r[2])]
        for e in I.events:
            if e.kind in ("setattr", "setitem"):
                vals.append(I.freeze(e.value))
        discipline(ctx, f"C07.{cls}", w, vals, [I.freeze(r[0])])


INIT = (("MLP", "shape key scale"), ("RealNVP", "n_features n_layers n_hidden key"),
        ("AffineCoupling", "n_features n_hidden mask key"),
        ("MaskedCouplingRQSpline", "n_features n_layers hidden_size num_bins key"))


def reachable(I, v):
    """(value, inside a lane) of every field reachable from an object"""
    out, seen = [], set()

    def go(x, lane):
        x = I.freeze(x)
        if isinstance(x, tuple):
            for y in x:
                go(y, lane)
            return
        if not isinstance(x, Term):
            return
        out.append((x, lane))
        for u in T.walk(x):
            if u.op == "new" and u not in seen:
                seen.add(u)
                inl = lane or any(c.op == "comp" and T.contains(c.args[1], u) for c in T.walk(x))
                for f in I.st.heap.get(u, {}).values():
                    go(f, inl)
    go(v, False)
    return out


def c07_init(ctx):
    for cls, names in INIT:
        C = ctx.p.maybe_class(cls)
        if C is None:
            continue
        I = Interp(ctx.p, tag_sites=True)
        b = I.instantiate(C, [], {k: T.sym(k) for k in names.split()}, None)
        ctx.absorb(I)
        w = ctx.where(C, "__init__")
        vals = reachable(I, b)
        root = T.sym("key")
        discipline(ctx, f"C07.{cls}.init", w, [v for v, _ in vals], roots=(root,), lanes=False)
        for v, lane in vals:
            if not lane:
                continue
            L = Live([v], (root,))
            for d in L.draws.values():
                try:
                    p = L.P.path(d.key)
                except Key:
                    continue
                ctx.true(f"C07.{cls}.init.layers", w, bool(pathvars(p)),
                         f"{d.name()}: every layer is initialised from a key of its own", d.key)


def independent(ctx, rule, w, named, roots=(KEY,)):
    """the named keys are pairwise disjoint"""
    P = Paths(roots)
    ps = []
    for nm, k in named:
        try:
            ps.append((nm, P.path(k), k))
        except Key as e:
            (ctx.bad if "constant key" in str(e) else ctx.und)(rule, w, f"{nm}: {e}")
    for a in range(len(ps)):
        for b in range(a):
            r = compare(ps[a][1], ps[b][1])
            d = f"{ps[a][0]} and {ps[b][0]} are independent draws"
            if r == "apart":
                ctx.ok(rule, w, d)
            elif r == "overlap":
                ctx.bad(rule, w, d, (ps[a][2], ps[b][2]))
            else:
                ctx.und(rule, w, d)


# ------------------------------------------------------------------ sources of randomness in the text

IMPURE = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom")


def c07_sources(ctx):
    """no module of the library draws from anything but a jax key it was handed"""
    import ast
    n = 0
    for m in ctx.p.modules.values():
        names = {}
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom) and node.module and not node.level:
                for a in node.names:
                    names[a.asname or a.name] = f"{node.module}.{a.name}"
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            n += 1
            d = dotted(node.func)
            if d is None:
                continue
            head, _, rest = d.partition(".")
            full = names.get(head)
            if full is None:
                continue
            full = full + ("." + rest if rest else "")
            w = f"{relsite(str(m.path) + ':' + str(node.lineno))} ({m.name})"
            if any(full.startswith(q) for q in IMPURE):
                ctx.bad("C07.source", w, f"{full}: a source of randomness that does not derive from the caller's key")
            elif full in ("jax.random.PRNGKey", "jax.random.key") and node.args and isinstance(node.args[0], ast.Constant):
                ctx.bad("C07.source", w, f"{full}({node.args[0].value!r}): a fixed key in library code")
    ctx.ok("C07.source", "src/flowMC", f"{n} calls in {len(ctx.p.modules)} modules: none draws from a global or fixed source")


def dotted(e):
    import ast
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and f"{b}.{e.attr}"
    return None
