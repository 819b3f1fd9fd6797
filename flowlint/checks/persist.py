"""Saving and loading of resources: what load builds from what save wrote."""
import ast
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from ..project import ClassInfo
from .base import rel, relsite

SAVED, OTHER = T.sym("self"), T.sym("other")
PATH = T.sym("path")


def implemented(p, C, name):
    h = C.lookup(name)
    if h is None:
        return None
    if h[1] == "method":
        body = [s for s in h[2].body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if p.is_abstract(h[2]) or all(isinstance(s, (ast.Raise, ast.Pass)) for s in body):
            return None
    return h


PAIRS = (("save_resource", "load_resource"), ("save_model", "load_model"))


def savable(p):
    R = p.find_class("Resource")
    for C in p.subclasses(R):
        for sv, ld in PAIRS:
            if C is not R and implemented(p, C, sv) and implemented(p, C, ld):
                yield C, sv, ld


def target(C, name):
    """the function behind a method or an alias of one"""
    h = C.lookup(name)
    if h[1] == "attr" and isinstance(h[2][1], ast.Name) and h[2][1].id in h[0].methods:
        return h[0].methods[h[2][1].id]
    return h[2]


def fields(C):
    """attributes an object of C carries: declared ones, and those its methods assign"""
    out = {}
    for c in C.mro():
        if not isinstance(c, ClassInfo):
            continue
        for n, (ann, _) in c.attrs.items():
            if ann is not None and "ClassVar" not in ast.unparse(ann):
                out.setdefault(n, ast.unparse(ann))
        for m in c.methods.values():
            if not m.args.args or any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in m.decorator_list):
                continue
            me = m.args.args[0].arg
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    out.setdefault(x.attr, "")
    return {n: a for n, a in out.items() if not C.lookup(n) or C.lookup(n)[1] != "method"}


def c22(ctx):
    done = set()
    for C, sv, ld in savable(ctx.p):
        if is_module(C):
            k = (id(target(C, sv)), id(target(C, ld)))
            if k in done:
                continue
            done.add(k)
        owner = C if not is_module(C) else C.lookup(sv)[0]
        R = lambda s, o=owner: f"C22.{s}[{o.name}]"
        w, wl = ctx.where(C, sv), ctx.where(C, ld)
        I = Interp(ctx.p)
        TYPES[SAVED] = (C, True)
        I.call(I.get_attr(SAVED, sv, None), [PATH], {}, None)
        ctx.absorb(I)
        saves = [e for e in I.events if e.kind == "save"]
        J = Interp(ctx.p)
        TYPES[OTHER] = (C, True)
        r = J.call(J.get_attr(OTHER, ld, None), [PATH], {}, None)
        ctx.absorb(J)
        if len(saves) != 1 or saves[0].guards:
            if I.unks:
                ctx.und(R("write"), w, f"{len(saves)} file writes recognised: {I.unks[:2]}")
            else:
                ctx.bad(R("write"), w, "saving writes one file, always")
            continue
        s = saves[0]
        site = f"{relsite(s.site)} ({owner.name}.{sv})"
        if is_module(C) or any(x is SAVED for x in s.args):
            module(ctx, R, C, J, s, site, r, wl)
        else:
            npz(ctx, R, C, I, J, s, site, r, wl)


def is_module(C):
    return any(isinstance(b, str) and b.endswith("Module") for b in C.ext_bases())


def module(ctx, R, C, J, s, site, r, wl):
    ctx.true(R("all"), site, len(s.args) == 1 and s.args[0] is SAVED and not s.fields,
             "every leaf of the model is saved", *s.args)
    r = J.freeze(r)
    if not (isinstance(r, Term) and r.op == "deser"):
        ctx.true(R("load"), wl, False, "loading restores the leaves from the file", r)
        return
    ctx.same(R("path"), wl, r.args[0], s.path, "the file read is the file written for the same path")
    ctx.true(R("load"), wl, r.args[1] is OTHER and len(r.args) == 2, "the whole model is restored", r)
    ctx.true(R("named"), site, T.contains(s.path, PATH), "the file is the one the caller names", s.path)


def npz(ctx, R, C, I, J, s, site, r, wl):
    saved = dict(s.fields)
    for k, v in enumerate(s.args):
        saved.setdefault(f"arr_{k}", v)
    decl = fields(C)
    strs = {mk("attr", SAVED, n) for n, a in decl.items() if a == "str"}
    structured = {mk("attr", SAVED, n) for n, a in decl.items() if a.startswith(("dict", "list", "tuple"))}
    ctx.true(R("named"), site, T.contains(s.path, PATH) and T.contains(s.path, mk("attr", SAVED, "name")) if "name" in decl
             else T.contains(s.path, PATH), "the file name has the caller's path and the object's name", s.path)
    for k, v in saved.items():
        bad = next((x for x in structured if v is x), None)
        if bad is not None:
            ctx.bad(R(f"file.{k}"), site, "a Python structure is written as it is: numpy pickles it and refuses to read it back", v)
            return
    missing = []
    paths = set()

    def conv(u):
        if u.op == "elem" and isinstance(u.args[0], Term) and u.args[0].op == "npload" and isinstance(u.args[1], str):
            paths.add(u.args[0].args[0])
            if u.args[1] not in saved:
                missing.append(u.args[1])
                return None
            return mk("npz", saved[u.args[1]]) if isinstance(saved[u.args[1]], Term) else saved[u.args[1]]
        return None

    def open_(u):
        """undo what numpy wraps around a value"""
        if not isinstance(u, Term) or not u.args:
            return u
        if u.op in ("fmt", "str", "strip") and isinstance(u.args[0], Term) and u.args[0].op == "npz":
            x = u.args[0].args[0]
            return x if x in strs or isinstance(x, Term) and x.op in ("jsondumps", "fmt", "str", "cat") else mk("fmt", x)
        if u.op in ("int", "float", "cast", "bool") and isinstance(u.args[0], Term) and u.args[0].op == "npz":
            x = u.args[0].args[0]
            return T.rebuild(u, lambda y: x if y is u.args[0] else y) if x in strs or isinstance(x, Term) and x.op == "jsondumps" else x
        if u.op == "mcall" and u.args[1] in ("item", "tolist", "copy", "__str__") and isinstance(u.args[0], Term) and u.args[0].op == "npz":
            return u.args[0].args[0]
        if u.op == "elem" and isinstance(u.args[0], Term) and u.args[0].op == "npz" and u.args[1] in ((), ):
            return u.args[0].args[0]
        if u.op == "jsonloads" and isinstance(u.args[0], Term):
            x = open_(u.args[0])
            if isinstance(x, Term) and x.op == "npz":
                x = x.args[0]
            if isinstance(x, Term) and x.op == "jsondumps":
                return x.args[0]
        return u

    def rebuild(x):
        if isinstance(x, tuple):
            return tuple(rebuild(y) for y in x)
        if not isinstance(x, Term):
            return x
        y = conv(x)
        if y is not None:
            return y
        if x.args and x.op not in ("var", "bv"):
            x = T.rebuild(x, rebuild)
        return open_(x)

    for n in decl:
        want = mk("attr", SAVED, n)
        got = J.freeze(J.get_attr(r, n, None))
        missing.clear()
        got = rebuild(got)
        if isinstance(got, Term) and got.op == "npz" and want not in strs:
            got = got.args[0]
        if missing:
            ctx.bad(R(f"field.{n}"), wl, f"'{missing[0]}' is not in the file", got, want)
            continue
        if isinstance(want, Term) and I.freeze(I.get_attr(SAVED, n, None)) is not want:
            want = I.freeze(I.get_attr(SAVED, n, None))
        ctx.same(R(f"field.{n}"), wl, got, want, f"{n} of the loaded object is that of the saved one")
    for p in paths:
        ctx.true(R("path"), wl, T.contains(p, PATH), "the file read is the one the caller names", p)
    if not paths:
        ctx.true(R("path"), wl, False, "a file is read", J.freeze(r))


def c22_leaves(ctx):
    """arrays and submodules of a model are leaves of it (a static field is not written to the file)"""
    mods = [C for C in ctx.p.all_classes() if is_module(C)]
    for C in mods:
        w = f"{rel(C.module.path)}:{C.node.lineno} ({C.name})"
        bad = []
        for n, (ann, dflt) in C.attrs.items():
            if ann is None or not isinstance(dflt, ast.Call) or not ast.unparse(dflt.func).endswith("field"):
                continue
            if any(k.arg == "static" and isinstance(k.value, ast.Constant) and k.value.value is True for k in dflt.keywords):
                names = {x.id for x in ast.walk(ann) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(ann) if isinstance(x, ast.Attribute)}
                if names & {"Array", "Float", "Int", "Bool"} or names & {D.name for D in mods}:
                    bad.append(n)
        ctx.true(f"C22.leaves[{C.name}]", w, not bad, f"no array or submodule is a static field {bad or ''}")
