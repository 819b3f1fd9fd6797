"""What strategies write, and what compiled code reads."""
import ast
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES, Closure, Wrap, Part
from ..project import ClassInfo
from . import scen, keys
from .persist import fields, is_module
from .base import txt, tainted, rel, relsite

RES, DATA, X0, KEY = [T.sym(n) for n in ("resources", "data", "initial_position", "rng_key")]
MUTATORS = {"append", "extend", "insert", "pop", "update", "clear", "remove", "setdefault", "popitem", "sort", "reverse"}


def strategies(p):
    S = p.find_class("Strategy")
    return [C for C in p.subclasses(S) if C.lookup("__call__") and not p.is_abstract(C.lookup("__call__")[2])
            and not any(p.is_abstract(m) and C.lookup(n)[2] is m for D in C.mro() if isinstance(D, ClassInfo)
                        for n, m in D.methods.items())]


def run(ctx, C):
    I, r = scen.run_strategy(ctx, C, contract=keys.opaque_models(ctx.p))
    return I, r


# ------------------------------------------------------------------ C24

def c24(ctx):
    for C in strategies(ctx.p):
        I, r = run(ctx, C)
        R = lambda s, C=C: f"C24.{s}[{C.name}]"
        w = ctx.where(C, "__call__")
        self_ = T.sym("self")
        for e in I.events:
            if e.kind not in ("setattr", "setitem", "delete"):
                continue
            o = e.__dict__.get("obj")
            if not isinstance(o, Term):
                continue
            site = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
            if e.kind == "setitem" and o is RES:
                k = I.freeze(e.key)
                ctx.true(R("replaced"), site, isinstance(k, Term) and T.contains(k, self_),
                         "a resource is replaced only under a name the strategy is configured with", k)
                continue
            if o is self_ or o.op == "attr" and T.contains(o, self_) and not T.contains(o, RES):
                continue               # the strategy's own state
            if o.op == "new":
                continue               # made during this call
            if T.contains(o, DATA) and not T.contains(o, RES):
                ctx.bad(R("data"), site, "the caller's data are changed in place", o)
            elif T.contains(o, X0) and not T.contains(o, RES):
                ctx.bad(R("position"), site, "the caller's positions are changed in place", o)
            elif T.contains(o, RES):
                named = [u for u in T.walk(o) if u.op == "elem" and u.args[0] is RES]
                ok = bool(named) and all(isinstance(u.args[1], Term) and T.contains(u.args[1], self_) for u in named)
                ctx.true(R("written"), site, ok, "a resource is changed only if the strategy is configured with its name", o)
            else:
                ctx.true(R("written"), site, False, "something else than the configured resources is changed", o)
        readonly(ctx, R, C, I, w)
        if not isinstance(r, tuple) or len(r) != 3:
            f = I.freeze(r) if r is not None else None
            ctx.true(R("returns"), w, False, "a strategy returns a key, the resources and the positions", f)
            continue
        ctx.true(R("returns"), w, r[1] is RES, "the resources handed on are the ones it was given", I.freeze(r[1]))


def readonly(ctx, R, C, I, w):
    """the density, and whatever kernel steps the chains, are never replaced or changed"""
    self_ = T.sym("self")
    for n in fields(C):
        if not any(x in n for x in ("kernel", "logpdf", "tempered_logpdf")):
            continue
        name = mk("attr", self_, n)
        for e in I.events:
            if e.kind == "setitem" and e.obj is RES and I.freeze(e.key) is name or \
                    e.kind == "setattr" and isinstance(e.obj, Term) and e.obj is mk("elem", RES, name):
                ctx.bad(R("readonly"), f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})", f"the resource named by {n} is changed")


# ------------------------------------------------------------------ C25

def mutable(p):
    """{attribute name: (where it is assigned)} for attributes of plain objects assigned outside construction"""
    out = {}
    for C in p.all_classes():
        if is_module(C):
            continue
        for m in C.methods.values():
            scan(C.module, m, C, m.name == "__init__", out)
    for M in p.modules.values():
        for st in M.tree.body:
            if isinstance(st, ast.FunctionDef):
                scan(M, st, None, False, out)
    for C in p.all_classes():
        if is_module(C):
            for m in C.methods.values():
                scan(C.module, m, None, m.name == "__init__", out)
    return out


def scan(M, fn, C, init, out):
    me = fn.args.args[0].arg if fn.args.args else None
    # objects this function builds: filling them in is construction
    built = {t.id for x in ast.walk(fn) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call)
             and (ast.unparse(x.value.func).endswith("__new__") or isinstance(x.value.func, ast.Name)
                  and (x.value.func.id == "cls" or x.value.func.id[:1].isupper()))
             for t in x.targets if isinstance(t, ast.Name)}
    done = {id(x.value) for x in ast.walk(fn) if isinstance(x, ast.Expr)}     # a call whose value is dropped
    for x in ast.walk(fn):
        t = None
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            t = x
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            t = x.value
            while isinstance(t, ast.Subscript):
                t = t.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS \
                and id(x) in done:
            t = x.func.value
        if not isinstance(t, ast.Attribute):
            continue
        if isinstance(t.value, ast.Name) and t.value.id in built:
            continue
        own = isinstance(t.value, ast.Name) and t.value.id == me
        if own and (init or C is None):
            continue                  # construction, or an immutable module
        out.setdefault(t.attr, []).append((C if own else None, f"{rel(M.path)}:{x.lineno} ({(C.name + '.') if C else ''}{fn.name})"))


def c25(ctx):
    mut = mutable(ctx.p)
    for C in strategies(ctx.p):
        I, r = run(ctx, C)
        traced(ctx, I, mut, C.name, ctx.where(C, "__call__"))
        if C.lookup("optimize"):
            I = Interp(ctx.p)
            s = scen.new_self(C)
            I.call(I.get_attr(s, "optimize", None), [KEY, T.sym("objective"), X0, DATA], {}, None)
            ctx.absorb(I)
            traced(ctx, I, mut, C.name + ".optimize", ctx.where(C, "optimize"))
    for C in ctx.p.subclasses(ctx.p.find_class("ProposalBase")):
        if C.lookup("kernel") and not ctx.p.is_abstract(C.lookup("kernel")[2]):
            I, r = scen.run_kernel(ctx, C)
            traced(ctx, I, mut, C.name, ctx.where(C, "kernel"))
    ctx.extra = {"mutable_attributes": {k: [w for _, w in v] for k, v in mut.items()}}


def locals_(I, v):
    """functions made by the call under analysis inside a stored value"""
    if isinstance(v, (tuple, list)):
        return [f for x in v for f in locals_(I, x)]
    if I.local_function(v) is None:
        return []
    while not isinstance(v, Closure):
        v = v.fn
    return [v]


CALLER = [T.sym(n) for n in ("rng_key", "resources", "initial_position", "data", "position", "log_prob", "logpdf", "objective")]


def captured(I, fn, seen=None):
    """variables of the enclosing calls a function reads whose value comes from the caller's arguments"""
    seen = set() if seen is None else seen
    if fn.node in seen:
        return []
    seen.add(fn.node)
    a = fn.node.args
    own = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    own |= {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    out = []
    for name in sorted({x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name)} - own):
        fid = fn.fid
        while fid is not None and fid in I.st.frames and I.st.frames[fid][0] is not None:
            up, d, _ = I.st.frames[fid]
            if name in d:
                v = d[name]
                for f in locals_(I, v):
                    out += captured(I, f, seen)
                if not locals_(I, v):
                    try:
                        t = I.freeze(v)
                    except Exception:
                        break
                    if isinstance(t, (Term, tuple)) and any(T.contains(t, x) for x in CALLER):
                        out.append((name, t))
                break
            fid = up
    return out


def traced(ctx, I, mut, lab, w):
    R = lambda s: f"C25.{s}[{lab}]"
    n = 0
    hits = {}
    kept = set()            # local functions that outlive the call that makes them
    for e in I.events:
        o = e.__dict__.get("obj")
        if e.kind in ("setattr", "setitem") and isinstance(o, Term) and any(x.op == "var" for x in T.walk(o)):
            f = e.value
            while isinstance(f, (Wrap, Part)):
                f = f.fn
            if f is not e.value and isinstance(f, Term) and any(T.contains(f, x) for x in CALLER):
                ctx.bad(R("kept"), f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})",
                        "a transformed function of one call is kept for the next", f)
            for fn in locals_(I, e.value):
                kept.add(fn.node)
                for name, v in captured(I, fn):
                    ctx.bad(R("kept"), f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})",
                            f"a function that outlives the call keeps `{name}` of the call that made it", v)
    for cls, name, site, func, o, within in I.reads:
        if is_module(cls):
            continue
        if all(f is not None and f not in kept for f in within):
            n += 1
            continue        # every call compiles functions of its own
        n += 1
        made = [x for D, x in mut.get(name, ()) if D is None and named(ctx.p, cls, name) or D is not None and (D in cls.mro() or cls in D.mro())]
        if made and o.op != "new":
            hits.setdefault((cls.name, name, func), (site, made))
    for (cn, name, func), (site, made) in hits.items():
        ctx.bad(R(f"reads.{cn}.{name}"), f"{relsite(site)} ({'.'.join(func.split('.')[-2:])})",
                f"compiled code reads {cn}.{name}, which {made[0]} changes: the value of the first call is kept")
    if not hits:
        ctx.ok(R("reads"), w, f"{n} attribute reads in compiled code, none of an attribute that changes after construction")
    bad = []
    for e in I.events:
        if e.kind in ("setattr", "setitem", "delete", "nonlocal") and ("traced" in e.ctx or "scan" in e.ctx):
            o = e.__dict__.get("obj")
            if isinstance(o, Term) and o.op == "new" or e.kind == "setitem" and not isinstance(o, Term):
                continue
            bad.append(e)
            ctx.bad(R("writes"), f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})",
                    "compiled code changes a Python object: that happens once, when it is traced", o if isinstance(o, Term) else None)
    if not bad:
        ctx.ok(R("writes"), w, "compiled code changes no Python object")


def named(p, cls, name):
    return name in fields(cls)


# ------------------------------------------------------------------ C26

def c26(ctx):
    for C in ctx.p.all_classes():
        if not any("register_pytree_node_class" in ast.unparse(d) for d in C.decorators):
            continue
        R = lambda s, C=C: f"C26.{s}[{C.name}]"
        w = ctx.where(C, "tree_unflatten")
        I = Interp(ctx.p)
        s = scen.new_self(C)
        fl = I.call(I.get_attr(s, "tree_flatten", None), [], {}, None)
        if not (isinstance(fl, tuple) and len(fl) == 2):
            ctx.true(R("flatten"), ctx.where(C, "tree_flatten"), False, "flattening gives children and auxiliary data", I.freeze(fl))
            continue
        ch, aux = fl
        o = I.call(I.get_attr(C, "tree_unflatten", None), [aux, ch], {}, None)
        ctx.absorb(I)
        o = I.freeze(o)
        ty = I.typeof(o) if isinstance(o, Term) else None
        ctx.true(R("type"), w, bool(ty) and ty[0] is C, f"unflattening gives a {C.name} again", o)
        for n in fields(C):
            if isinstance(C.lookup(n), tuple) and C.lookup(n)[1] == "method":
                continue
            got = I.freeze(I.get_attr(o, n, None))
            ctx.same(R(f"field.{n}"), w, got, mk("attr", s, n), f"{n} survives flattening and unflattening")
