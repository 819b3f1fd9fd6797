"""Gated value numbering over the syntax tree.

The interpreter walks the parsed source of the package and computes, for every
expression, a term in normal form (terms.py).  Branches on unknown conditions
are both walked and merged with `sel` (a gated phi); loops, scans and maps are
summarised once with bound variables (carried values, index).  Nothing of the
repository is imported or run, no path is enumerated, no solver is called.
"""
import ast
import sys
from fractions import Fraction

from . import terms as T
from . import ints
from .terms import Term, mk, fresh, is_num, same
from .project import ClassInfo, Module, AnchorMissing, dotted

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ non-term values

class Closure:
    def __init__(self, node, fid, module, cls=None, name=None, defaults=None, kwdefaults=None):
        self.node, self.fid, self.module, self.cls = node, fid, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def __eq__(self, o):
        return isinstance(o, Closure) and o.node is self.node and o.fid == self.fid

    def __hash__(self):
        return hash((id(self.node), self.fid))


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and same(o.obj, self.obj)

    def __hash__(self):
        return hash(self.fn)


class MBound:
    """method `name` of a value whose implementation is not inlined"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, MBound) and o.name == self.name and o.obj is self.obj

    def __hash__(self):
        return hash(self.name)


class Lib:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<{self.name}>"


class Part:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(sorted(kwargs.items()))

    def __eq__(self, o):
        return (isinstance(o, Part) and o.fn == self.fn and len(o.args) == len(self.args)
                and all(same(x, y) or x == y for x, y in zip(o.args, self.args)) and o.kwargs == self.kwargs)

    def __hash__(self):
        return hash(("part", self.fn))


class Wrap:
    """vmap / grad / jit of a function"""

    def __init__(self, kind, fn, opts):
        self.kind, self.fn, self.opts = kind, fn, opts

    def __eq__(self, o):
        return isinstance(o, Wrap) and o.kind == self.kind and o.fn == self.fn and repr(o.opts) == repr(self.opts)

    def __hash__(self):
        return hash((self.kind, self.fn))


class Record(tuple):
    """a tuple with named items: a NamedTuple (cls may be None), or the values of a dict (cls "dict")"""

    def __new__(cls, kind, names, items):
        t = tuple.__new__(cls, items)
        t.kind, t.names = kind, tuple(names)
        return t


def like(v, items):
    """a tuple of the items, with the names v has"""
    return Record(v.kind, v.names, items) if isinstance(v, Record) else tuple(items)


class SelFn:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, SelFn) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(("selfn", self.c))


class PyFn:
    """a function given by the checker itself"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Seg:
    """a run of list items produced by a summarised loop"""

    def __init__(self, idx, items, n):
        self.idx, self.items, self.n = idx, items, n

    def __eq__(self, o):
        return isinstance(o, Seg) and o.idx is self.idx and o.items == self.items and same(o.n, self.n)

    def __hash__(self):
        return hash((self.idx, self.n))


def turned(items):
    """the items in reverse order"""
    out = []
    for x in reversed(items):
        if isinstance(x, Seg):
            back = {x.idx: T.sub(T.sub(x.n, 1), x.idx)}
            x = Seg(x.idx, tuple(T.subst(y, back) if isinstance(y, Term) else y for y in reversed(x.items)), x.n)
        out.append(x)
    return tuple(out)


def sliced(items, lo, hi, st):
    """items[lo:hi:st] of a list with runs of symbolic length"""
    runs = [k for k, x in enumerate(items) if isinstance(x, Seg) or isinstance(x, Term) and x.op == "seqphi"]
    first, last = runs[0], len(items) - 1 - runs[-1]
    if st == -1 and lo is None and hi is None:
        return turned(items) if plain(items) and all(isinstance(items[k], Seg) for k in runs) else None
    if st not in (None, 1):
        return None
    at = lambda c: int(c) if 0 <= c <= first else len(items) + int(c) if -last <= c < 0 else None
    a, b = 0 if lo is None else at(lo), len(items) if hi is None else at(hi)
    if a is not None and b is not None:
        return tuple(items[a:b])
    if len(items) == 1 and isinstance(items[0], Seg) and len(items[0].items) == 1 and plain(items):
        x, c, n = items[0].items[0], 0 if lo is None else lo, items[0].n
        if c >= 0 and (hi is None or hi < 0):
            if isinstance(x, Term):
                x = T.subst(x, {items[0].idx: T.add(items[0].idx, c)})
            return (Seg(items[0].idx, (x,), T.sub(n, c - (hi or 0))),)
    return None


def plain(items):
    """items whose runs hold terms only"""
    return all(not isinstance(x, Seg) or x.items and all(isinstance(y, Term) or T.is_num(y) for y in x.items) for x in items)


def takes_run(fn, k):
    """a callable that is modelled for arguments k, k+1, .. being a run of symbolic length"""
    if isinstance(fn, Lib):
        return fn.name in ("builtins.zip", "builtins.print") or fn.name in (
            "jax.tree.map", "jax.tree_util.tree_map", "jax.tree_map") and k >= 1
    if isinstance(fn, Closure):
        a = fn.node.args
        return a.vararg is not None and len(a.posonlyargs + a.args) <= k
    return False


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


CALLABLES = (Closure, Bound, MBound, Lib, Part, Wrap, SelFn, PyFn, ClassInfo)


class State:
    def __init__(self):
        self.frames, self.heap, self.types = {}, {}, {}

    def fork(self):
        s = State()
        s.frames, s.heap, s.types = dict(self.frames), dict(self.heap), dict(self.types)
        return s

    def setvar(self, fid, name, v):
        d = dict(self.frames[fid][1])
        d[name] = v
        self.frames[fid] = (self.frames[fid][0], d, self.frames[fid][2])

    def setfield(self, obj, name, v):
        d = dict(self.heap.get(obj, {}))
        d[name] = v
        self.heap[obj] = d


TYPES = {}      # Term -> (ClassInfo, exact)
ELEMTYPE = {}   # Term -> ClassInfo of its elements


class Event:
    def __init__(self, kind, site, func, guards, ctx, **kw):
        self.kind, self.site, self.func, self.guards, self.ctx = kind, site, func, guards, ctx
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<{self.kind} {self.site}>"


ARRAY_ATTRS = {"shape", "ndim", "T", "at", "size", "dtype", "mT"}
ARRAY_METHODS = {"sum", "mean", "reshape", "astype", "flatten", "ravel", "all", "any", "copy", "min", "max",
                 "prod", "cumsum", "dot", "squeeze", "transpose", "item", "tolist", "std", "var", "clip", "repeat",
                 "argmax", "argmin", "swapaxes", "view", "round", "set", "add", "multiply", "get", "divide", "power",
                 "argsort", "trace", "diagonal"}


class Interp:
    def __init__(self, project, opaque=(), inline=(), contract=None, tag_sites=False, max_depth=80,
                 attr_hook=None):
        self.p = project
        self.st = State()
        self.events = []
        self.guards = []
        self.ctx = []          # 'traced' / loop markers
        self.loops = []        # (index, count) of the statement loops being evaluated
        self.stack = []        # (func qualname, call site)
        self.opaque = set(opaque)    # "Class.method" never inlined
        self.inline = set(inline)    # "Class.method" inlined even if overridden elsewhere
        self.contract = contract     # (obj, name, args, kwargs) -> result or None
        self.attr_hook = attr_hook   # (obj, name) -> value or None
        self.tag_sites = tag_sites
        self.max_depth = max_depth
        self.fcount = 0
        self.ncount = 0
        self.globcache = {}
        self.module = None
        self.visited = set()    # function qualnames analysed
        self.sites = 0          # call sites resolved
        self.floats = set()     # arrays known to be floating point although their values look like integers
        self.others = set()     # arrays made with an explicit dtype
        self.unks = []
        self.compiled = []      # the functions being compiled, outermost first
        self.reads = []         # (class, attribute, site, function) read from plain objects in traced code

    # ---------------------------------------------------------------- helpers
    def site(self, node):
        m = self.stack[-1][1] if self.stack else None
        path = m.path if m is not None else "?"
        return f"{path}:{getattr(node, 'lineno', 0)}"

    def where(self):
        return self.stack[-1][0] if self.stack else "<module>"

    def unk(self, node, why, *args):
        s = self.site(node) if node is not None else "?"
        t = mk("unk", f"{why} @ {s}", tuple(self.freeze(a) for a in args))
        self.unks.append((s, why))
        return t

    def emit(self, kind, node, **kw):
        self.events.append(Event(kind, self.site(node) if node is not None else "?", self.where(),
                                 tuple(self.guards), tuple(self.ctx), stack=tuple(s[0] for s in self.stack),
                                 loops=tuple(self.loops), **kw))

    def new(self, cls, **fields):
        self.ncount += 1
        t = mk("new", cls.name if isinstance(cls, ClassInfo) else cls, self.ncount)
        self.st.heap[t] = dict(fields)
        if isinstance(cls, ClassInfo):
            TYPES[t] = (cls, True)
        return t

    def new_list(self, items):
        return self.new("list", **{"#items": tuple(items)})

    def new_dict(self, pairs, base=None):
        return self.new("dict", **{"#d": tuple(pairs), "#base": base})

    def is_list(self, v):
        return isinstance(v, Term) and "#items" in self.st.heap.get(v, ())

    def as_dict(self, v):
        """an attribute its class declares as a dict, not yet written: make it a mapping over itself"""
        if not (isinstance(v, Term) and v.op == "attr" and isinstance(v.args[1], str)) or "#d" in self.st.heap.get(v, ()):
            return False
        ty = self.typeof(v.args[0])
        hit = ty[0].lookup(v.args[1]) if ty else None
        if not hit or hit[1] == "method" or hit[2][0] is None:
            return False
        if ast.unparse(hit[2][0]).split("[")[0].split(".")[-1] not in ("dict", "Dict", "MutableMapping"):
            return False
        self.st.heap[v] = dict(self.st.heap.get(v, {}), **{"#d": (), "#base": v})
        return True

    def is_dict(self, v):
        return isinstance(v, Term) and "#d" in self.st.heap.get(v, ())

    def items(self, v):
        """python tuple of the elements of a concrete sequence, or None"""
        if isinstance(v, tuple):
            return v
        if self.is_list(v):
            return self.st.heap[v]["#items"]
        if isinstance(v, Term) and v.op == "arr":
            return v.args[0]
        if isinstance(v, Term) and v.op == "lst":
            return v.args[0]
        if isinstance(v, range):
            return tuple(v)
        return None

    def typeof(self, t):
        if not isinstance(t, Term):
            return None
        r = self.st.types.get(t) or TYPES.get(t)
        if r:
            return r
        if t.op == "upda":
            return self.typeof(t.args[0])
        if t.op in ("stop",):
            return self.typeof(t.args[0])
        if t.op == "elem":
            e = ELEMTYPE.get(t.args[0])
            if e:
                return (e, False)
            if t.args[0].op in ("attr", "elem") if isinstance(t.args[0], Term) else False:
                b = self.typeof(t.args[0])
                if b and b[0] and any("Module" in str(x) for x in b[0].ext_bases()):
                    return b
        if t.op == "sel":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a and b and a[0] is b[0]:
                return (a[0], a[1] and b[1])
        if t.op in ("pre", "fin"):
            return self.typeof(t.args[0].args[1][t.args[1]])
        return None

    def freeze(self, v):
        """value -> something that can live inside a term"""
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, Term):
            if self.is_list(v):
                it = self.st.heap[v]["#items"]
                if any(isinstance(x, Seg) for x in it):
                    return mk("seq", tuple(
                        mk("seg", self.freeze(T.comp(x.idx, self.freeze(x.items), x.n)), self.freeze(x.n))
                        if isinstance(x, Seg) else self.freeze(x) for x in it))
                return mk("lst", tuple(self.freeze(x) for x in it))
            if self.is_dict(v):
                r = self.st.heap[v]
                if not r["#d"] and isinstance(r["#base"], Term) and r["#base"] is not v:
                    return self.freeze(r["#base"])      # a copy of a mapping is that mapping
                return mk("dct", v if r["#base"] is v else self.freeze(r["#base"]),
                          tuple(mk("seg", self.freeze(T.comp(x.idx, mk("tup", self.freeze(x.items)), x.n)),
                                   self.freeze(x.n))
                                if isinstance(x, Seg) else (self.freeze(x[0]), self.freeze(x[1])) for x in r["#d"]))
            return v
        if isinstance(v, CALLABLES):
            return self.reify(v)
        if isinstance(v, SliceV):
            return mk("slicev", self.freeze(v.lo), self.freeze(v.hi), self.freeze(v.st))
        if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
            return int(v)
        if isinstance(v, (Super, Module)):
            return mk("opq", repr(v))
        return v

    def arity(self, fn):
        """number of positional parameters still to be supplied"""
        if isinstance(fn, Closure):
            a = fn.node.args
            return len(a.posonlyargs) + len(a.args)
        if isinstance(fn, Bound):
            n = self.arity(fn.fn)
            return None if n is None else n - 1
        if isinstance(fn, Part):
            n = self.arity(fn.fn)
            return None if n is None else n - len(fn.args)
        if isinstance(fn, Wrap):
            return self.arity(fn.fn)
        if isinstance(fn, SelFn):
            return self.arity(fn.a)
        return None

    def reify(self, fn):
        if isinstance(fn, Term):
            return fn
        if isinstance(fn, ClassInfo):
            return mk("cls", fn.qual)
        if isinstance(fn, Lib):
            return mk("lib", fn.name)
        if isinstance(fn, MBound):
            return mk("meth", self.freeze(fn.obj), fn.name)
        if isinstance(fn, SelFn):
            return T.sel(fn.c, self.reify(fn.a), self.reify(fn.b))
        n = self.arity(fn)
        if n is None or n < 0 or n > 6 or len(self.stack) > self.max_depth - 5:
            return mk("opqfn", getattr(fn, "name", repr(type(fn).__name__)), id(fn))
        vs = [fresh("x") for _ in range(n)]
        if n >= 1:
            T.RANK[vs[0]] = 1      # functions handed to samplers act on one point
        save = (self.st.fork(), len(self.events), len(self.unks))
        try:
            r = self.call(fn, vs, {}, None)
        except Unsupported:
            r = self.unk(None, "function value")
        self.st = save[0]
        del self.events[save[1]:]
        r = self.freeze(r)
        if isinstance(r, tuple):
            r = mk("tup", r)
        for v in reversed(vs):
            r = T.lam(v, r)
        # eta: lam x. lam d. f(x, d) = f
        e = self._eta(r)
        return e if e is not None else mk("fn", n, r)

    def _eta(self, r):
        vs = []
        b = r
        while isinstance(b, Term) and b.op == "lam":
            vs.append(b.args[0])
            b = b.args[1]
        if isinstance(b, Term) and b.op == "app" and len(b.args[1]) == len(vs) \
                and all(x is y for x, y in zip(b.args[1], vs)) and not (T.free_vars(b.args[0]) & set(vs)):
            return b.args[0]
        return None

    # ---------------------------------------------------------------- annotations
    def annotate(self, t, ann, module):
        if not isinstance(t, Term) or ann is None:
            return t
        c, r, e = self.parse_ann(ann, module)
        if c is not None and t not in TYPES and t not in self.st.types:
            TYPES[t] = (c, False)
        if e is not None:
            ELEMTYPE.setdefault(t, e)
        if r is not None and T.rank(t) is None:
            T.RANK[t] = r
        return t

    def parse_ann(self, ann, module):
        """(class, rank, element class)"""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None, None, None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, b = self.parse_ann(ann.left, module), self.parse_ann(ann.right, module)
            if a[1] == b[1] and a[0] is None and b[0] is None:
                return a
            return None, None, None
        if isinstance(ann, ast.Subscript):
            d = dotted(ann.value)
            if d in ("Float", "Int", "Bool", "Num", "Real", "Complex", "Shaped", "Integer"):
                sl = ann.slice
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant):
                    tok = str(sl.elts[1].value).split()
                    if any("..." in x or x.startswith("*") for x in tok):
                        return None, None, None
                    if tok == ["1"] or not tok:
                        return None, 0, None
                    return None, len(tok), None
                return None, None, None
            if d in ("list", "List", "Sequence"):
                return None, None, self.parse_ann(ann.slice, module)[0]
            if d in ("Optional",):
                return self.parse_ann(ann.slice, module)
            return None, None, None
        d = dotted(ann)
        if d in ("Float", "Int", "Bool", "int", "float", "bool"):
            return None, 0, None
        if d:
            r = self.p.resolve(module, d)
            if r and r[0] == "class":
                return r[1], None, None
        return None, None, None

    # ---------------------------------------------------------------- names
    def new_frame(self, parent, module, cls=None):
        self.fcount += 1
        self.st.frames[self.fcount] = (parent, {}, (module, cls))
        return self.fcount

    def lookup(self, fid, name, node=None):
        f = fid
        while f is not None:
            parent, d, (module, cls) = self.st.frames[f]
            if name in d:
                return d[name]
            f = parent
        module = self.st.frames[fid][2][0]
        return self.global_name(module, name, node)

    def global_name(self, module, name, node=None):
        g = module.globals.get(name)
        if g is None:
            if name in BUILTINS:
                return Lib("builtins." + name)
            if name in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[name]
            return self.unk(node, f"undefined name {name}")
        kind, v = g
        if kind == "class":
            return v
        if kind == "func":
            return self.make_func(v, None, module)
        if kind == "import":
            return self.import_value(v, node)
        return self.global_expr(module, name, v)

    def make_func(self, node, fid, module, cls=None):
        if fid is None:
            fid = self.new_frame(None, module, cls)
        fn = Closure(node, fid, module, cls)
        self.bind_defaults(fn, fid)
        return self.decorate(fn, node, fid)

    def bind_defaults(self, fn, fid):
        a = fn.node.args
        fn.defaults = [self.eval_in(x, fid, fn.module) for x in a.defaults]
        fn.kwdefaults = [None if x is None else self.eval_in(x, fid, fn.module) for x in a.kw_defaults]

    def eval_in(self, expr, fid, module):
        self.stack.append((f"{module.name}", module))
        try:
            return self.ev(expr, fid)
        finally:
            self.stack.pop()

    def decorate(self, fn, node, fid):
        out = fn
        for d in reversed(node.decorator_list):
            n = dotted(d)
            last = n.split(".")[-1] if n else None
            if last in ("property", "staticmethod", "classmethod", "abstractmethod", "override", "wraps",
                        "register_pytree_node_class", "cached_property"):
                continue
            dv = self.eval_in(d, fid, fn.module)
            out = self.call(dv, [out], {}, d)
        return out

    def global_expr(self, module, name, node):
        k = (module.name, name)
        if k not in self.globcache:
            self.globcache[k] = None
            fid = self.new_frame(None, module)
            self.globcache[k] = self.eval_in(node, fid, module)
        return self.globcache[k]

    def import_value(self, d, node=None):
        r = self.p.resolve_abs(d)
        if r[0] == "class":
            return r[1]
        if r[0] == "func":
            return self.make_func(r[2], None, r[1])
        if r[0] == "module":
            return r[1]
        if r[0] == "expr":
            return self.global_expr(r[1], d.split(".")[-1], r[2])
        return lib_value(canon(r[1]))

    # ---------------------------------------------------------------- calls
    def call(self, fn, args, kwargs, node):
        self.sites += 1
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs, node)
        if isinstance(fn, Bound):
            if self.contract and isinstance(fn.obj, Term):
                g = fn.fn
                while isinstance(g, Wrap):
                    g = g.fn
                if isinstance(g, Closure):
                    r = self.contract(self, fn.obj, g.name, list(args), kwargs, node)
                    if r is not None:
                        return r
            return self.call(fn.fn, [fn.obj] + list(args), kwargs, node)
        if isinstance(fn, Part):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw, node)
        if isinstance(fn, PyFn):
            return fn.fn(self, args, kwargs, node)
        if isinstance(fn, Wrap):
            return self.call_wrap(fn, args, kwargs, node)
        if isinstance(fn, Lib):
            from . import lib
            return lib.call_lib(self, fn.name, args, kwargs, node)
        if isinstance(fn, ClassInfo):
            return self.instantiate(fn, args, kwargs, node)
        if isinstance(fn, MBound):
            from . import lib
            return lib.call_method(self, fn.obj, fn.name, args, kwargs, node)
        if isinstance(fn, SelFn):
            if fn.a is None or fn.b is None:        # calling None raises
                return self.call(fn.b if fn.a is None else fn.a, args, kwargs, node)
            return self.branch(fn.c, lambda: self.call(fn.a, args, kwargs, node),
                               lambda: self.call(fn.b, args, kwargs, node))
        if isinstance(fn, Term):
            if fn.op == "fn":
                return self.beta(fn, args)
            if fn.op == "sel" and None in fn.args[1:]:
                return self.call(fn.args[2] if fn.args[1] is None else fn.args[1], args, kwargs, node)
            if fn.op == "sel":
                return self.branch(fn.args[0], lambda: self.call(fn.args[1], args, kwargs, node),
                                   lambda: self.call(fn.args[2], args, kwargs, node))
            if fn.op == "lib":
                return self.call(Lib(fn.args[0]), args, kwargs, node)
            ty = self.typeof(fn)
            if ty and ty[0].lookup("__call__"):
                m = self.get_attr(fn, "__call__", node)
                return self.call(m, args, kwargs, node)
            return self.app(fn, args, kwargs, node)
        return self.unk(node, f"call of {type(fn).__name__}", *args)

    def app(self, fn, args, kwargs, node):
        if self.contract:
            r = self.contract(self, fn, "__call__", args, kwargs, node)
            if r is not None:
                return r
        if isinstance(fn, Term) and fn.op in ("attr", "meth"):
            from . import lib
            args, kwargs = lib.external(fn.args[1], args, kwargs)
        fa = tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        t = mk("app", self.freeze(fn), fa)
        r = T.RANK.get(("ret", fn))
        if r is not None:
            T.RANK[t] = r
        self.emit("app", node, fn=fn, args=fa, term=t)
        return t

    def beta(self, fn, args):
        n, b = fn.args
        for a in args[:n]:
            if not (isinstance(b, Term) and b.op == "lam"):
                break
            b = T.subst(b.args[1], {b.args[0]: self.freeze(a)})
        if isinstance(b, Term) and b.op == "tup":
            return b.args[0]
        return b

    def call_closure(self, fn, args, kwargs, node):
        if len(self.stack) >= self.max_depth:
            return self.unk(node, "call depth", *args)
        qual = (fn.cls.name + "." if fn.cls else "") + fn.name
        self.visited.add(f"{fn.module.name}.{qual}")
        fid = self.new_frame(fn.fid, fn.module, fn.cls)
        d = {}
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        args = list(args)
        kwargs = dict(kwargs)
        for i, pn in enumerate(params):
            if i < len(args):
                d[pn] = args[i]
            elif pn in kwargs:
                d[pn] = kwargs.pop(pn)
            else:
                k = i - (len(params) - len(fn.defaults or []))
                if fn.defaults and k >= 0:
                    d[pn] = fn.defaults[k]
                else:
                    d[pn] = self.unk(node, f"missing argument {pn} of {qual}")
        if a.vararg:
            d[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            return self.unk(node, f"too many arguments for {qual}")
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                d[x.arg] = kwargs.pop(x.arg)
            elif fn.kwdefaults and fn.kwdefaults[i] is not None:
                d[x.arg] = fn.kwdefaults[i]
            else:
                d[x.arg] = None
        if a.kwarg:
            d[a.kwarg.arg] = self.new_dict(tuple(kwargs.items()))
        elif kwargs:
            return self.unk(node, f"unexpected keyword {sorted(kwargs)} of {qual}")
        for k, v in d.items():
            if isinstance(v, Term) and anns.get(k) is not None and T.rank(v) is None and not self.typeof(v):
                self.annotate(v, anns[k], fn.module)
        self.st.frames[fid] = (fn.fid, d, (fn.module, fn.cls))
        self.stack.append((f"{fn.module.name}.{qual}", fn.module, node))
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fid)
            kind, v = self.block(fn.node.body, fid)
            if kind == "raise":
                return mk("raises", v)
            return v if kind == "ret" else None
        finally:
            self.stack.pop()

    def traced(self, kind, f, fn=None):
        """evaluate f() as part of a transformation of the function fn"""
        self.ctx.append(kind)
        if kind in ("traced", "scan"):
            self.compiled.append(self.local_function(fn))
        try:
            return f()
        finally:
            self.ctx.pop()
            if kind in ("traced", "scan"):
                self.compiled.pop()

    def local_function(self, fn):
        """the definition of a function made anew by each call of the code that compiles it: a compiled version is
        not shared between calls. None for methods and functions of a module, which compare equal from call to call"""
        while isinstance(fn, (Wrap, Part)):
            fn = fn.fn
        if isinstance(fn, Closure) and fn.fid in self.st.frames and self.st.frames[fn.fid][0] is not None:
            return fn.node
        return None

    def call_wrap(self, w, args, kwargs, node):
        from . import lib
        return lib.call_wrap(self, w, args, kwargs, node)

    def instantiate(self, cls, args, kwargs, node):
        if self.contract:
            r = self.contract(self, cls, "__init__", args, kwargs, node)
            if r is not None:
                return r
        if any(str(b).split(".")[-1] == "NamedTuple" for b in cls.ext_bases()):
            return self.new_record(cls, args, kwargs, node)
        obj = self.new(cls)
        hit = cls.lookup("__init__")
        if hit and not self.p.is_abstract(hit[2]):
            c, _, fnode = hit
            fn = self.make_func(fnode, None, c.module, c)
            self.call(Bound(obj, fn), args, kwargs, node)
        else:
            # dataclass / eqx.Module style field initialisation
            fields = []
            for c in reversed([c for c in cls.mro() if isinstance(c, ClassInfo)]):
                for n, (ann, dflt) in c.attrs.items():
                    if ann is not None and n not in [f[0] for f in fields]:
                        fields.append((n, dflt, c))
            for i, (n, dflt, c) in enumerate(fields):
                if i < len(args):
                    self.st.setfield(obj, n, args[i])
                elif n in kwargs:
                    self.st.setfield(obj, n, kwargs[n])
                elif dflt is not None:
                    self.st.setfield(obj, n, self.eval_in(dflt, self.new_frame(None, c.module), c.module))
        self.emit("new", node, obj=obj, cls=cls, given=(tuple(args), tuple(kwargs.items())))
        return obj

    def new_record(self, cls, args, kwargs, node):
        """an instance of a NamedTuple class"""
        names = [n for n, (ann, _) in cls.attrs.items() if ann is not None]
        vals = []
        for i, n in enumerate(names):
            dflt = cls.attrs[n][1]
            if i < len(args):
                vals.append(args[i])
            elif n in kwargs:
                vals.append(kwargs[n])
            elif dflt is not None:
                vals.append(self.eval_in(dflt, self.new_frame(None, cls.module), cls.module))
            else:
                return self.unk(node, f"{cls.name} without {n}", *args)
        return Record(cls, names, vals)

    def branch(self, c, fa, fb):
        """value-level branch with state merge"""
        c = self.truth(c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        st0 = self.st
        self.st = st0.fork()
        self.guards.append(c)
        a = fa()
        self.guards.pop()
        s1 = self.st
        self.st = st0.fork()
        self.guards.append(T.not_(c))
        b = fb()
        self.guards.pop()
        s2 = self.st
        self.st = self.merge(c, s1, s2)
        return self.select(c, a, b)

    def select(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if same(a, b) or (type(a) is type(b) and not isinstance(a, (Term, tuple)) and a == b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return like(a if isinstance(a, Record) else b, [self.select(c, x, y) for x, y in zip(a, b)])
        if isinstance(a, CALLABLES) or isinstance(b, CALLABLES):
            if isinstance(c, Term) and c.op == "not":
                return SelFn(c.args[0], b, a)
            return SelFn(c, a, b)
        if isinstance(a, Term) and isinstance(b, Term):
            if self.is_list(a) and self.is_list(b):
                ia, ib = self.items(a), self.items(b)
                if len(ia) == len(ib) and not any(isinstance(x, Seg) for x in ia + ib):
                    return self.new_list(tuple(self.select(c, x, y) for x, y in zip(ia, ib)))
        if isinstance(a, tuple) or isinstance(b, tuple):
            # a structured value against an opaque one
            n = len(a) if isinstance(a, tuple) else len(b)
            it = lambda x: x if isinstance(x, tuple) else tuple(T.elem(x, i) for i in range(n)) if isinstance(x, Term) else None
            ia, ib = it(a), it(b)
            if ia is not None and ib is not None and len(ia) == len(ib):
                return self.select(c, ia, ib)
            return mk("sel", c, self.freeze(a), self.freeze(b))
        return T.sel(c, a, b)

    def merge(self, c, s1, s2):
        s = State()
        s.types = dict(s1.types)
        s.types.update(s2.types)
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is f2 or f2 is None:
                s.frames[fid] = f1
                continue
            if f1 is None:
                s.frames[fid] = f2
                continue
            d = {}
            for k in list(f1[1]) + [k for k in f2[1] if k not in f1[1]]:
                if k in f1[1] and k in f2[1]:
                    d[k] = (f1[1][k], f2[1][k])
                else:
                    d[k] = f1[1].get(k, f2[1].get(k)),
            s.frames[fid] = (f1[0], d, f1[2])
        s.heap = {}
        for o in list(s1.heap) + [o for o in s2.heap if o not in s1.heap]:
            h1, h2 = s1.heap.get(o), s2.heap.get(o)
            if h1 is h2 or (h2 is None and o.op == "new"):
                s.heap[o] = h1
            elif h1 is None and o.op == "new":
                s.heap[o] = h2
            else:
                h1, h2 = h1 or {}, h2 or {}
                d = {}
                for k in list(h1) + [k for k in h2 if k not in h1]:
                    if k in h1 and k in h2:
                        d[k] = (h1[k], h2[k])
                    elif k == "#d" and o.op != "new":
                        d[k] = (h1.get(k, ()), h2.get(k, ()))
                    elif k.startswith("#"):
                        d[k] = h1.get(k, h2.get(k)),
                    else:
                        base = T.attr(o, k)
                        d[k] = (h1.get(k, base), h2.get(k, base))
                s.heap[o] = d
        # second pass: select needs self.st for lists
        old, self.st = self.st, s
        raw_frames = {fid: f for fid, f in s.frames.items()}
        for fid, f in raw_frames.items():
            if f is s1.frames.get(fid) or f is s2.frames.get(fid):
                continue
            s.frames[fid] = (f[0], {}, f[2])
        raw_heap = {o: h for o, h in s.heap.items() if not (h is s1.heap.get(o) or h is s2.heap.get(o))}
        for o, h in raw_heap.items():
            s.heap[o] = {k: v[0] for k, v in h.items()}
        for o, h in raw_heap.items():
            base = h["#base"][0] if "#base" in h else None
            s.heap[o] = {k: (v[0] if len(v) == 1 else self._merge_field(c, k, v[0], v[1], base))
                         for k, v in h.items()}
        for fid, f in raw_frames.items():
            if f is s1.frames.get(fid) or f is s2.frames.get(fid):
                continue
            s.frames[fid] = (f[0], {k: (v[0] if len(v) == 1 else self.select(c, v[0], v[1]))
                                    for k, v in f[1].items()}, f[2])
        self.st = old
        return s

    def _merge_field(self, c, k, a, b, dbase=None):
        if k == "#items":
            if a == b:
                return a
            if len(a) == len(b) and not any(isinstance(x, Seg) for x in a + b):
                return tuple(self.select(c, x, y) for x, y in zip(a, b))
            # common prefix, then a guarded run
            n = 0
            while n < min(len(a), len(b)) and (same(a[n], b[n]) or a[n] == b[n]):
                n += 1
            i = fresh("i", 0)
            out = list(a[:n])
            if len(a) > n:
                out.append(Seg(i, a[n:], T.sel(c, 1, 0)))
            if len(b) > n:
                out.append(Seg(i, b[n:], T.sel(c, 0, 1)))
            return tuple(out)
        if k == "#d":
            if a == b:
                return a
            out = []
            if any(isinstance(x, Seg) for x in a + b):
                n = 0
                while n < min(len(a), len(b)) and a[n] == b[n]:
                    n += 1
                i = fresh("i", 0)
                for rest, g in ((a[n:], T.sel(c, 1, 0)), (b[n:], T.sel(c, 0, 1))):
                    if rest and any(isinstance(x, Seg) for x in rest):
                        return tuple(a[:n]) + ((self.unk(None, "merged dictionary"), self.unk(None, "dict")),)
                    if rest:
                        out.append(Seg(i, rest, g))
                return tuple(a[:n]) + tuple(out)
            keys = [x for x, _ in a] + [x for x, _ in b if not any(same(x, y) for y, _ in a)]
            for key in keys:
                va, vb = find_pair(a, key), find_pair(b, key)
                if va is None and dbase is not None:
                    va = (mk("elem", dbase, self.freeze(key)),)
                if vb is None and dbase is not None:
                    vb = (mk("elem", dbase, self.freeze(key)),)
                if va is not None and vb is not None:
                    out.append((key, self.select(c, va[0], vb[0])))
                else:
                    v = va if va is not None else vb
                    out.append((key, mk("maybe", c if va is not None else T.not_(c), self.freeze(v[0]))))
            return tuple(out)
        return self.select(c, a, b)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        """python truthiness -> bool or boolean term"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_num(v):
            return bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, CALLABLES):
            return True
        if isinstance(v, Term):
            if self.is_list(v):
                it = self.items(v)
                if not any(isinstance(x, Seg) for x in it):
                    return len(it) > 0
            if self.is_dict(v) and self.st.heap[v]["#base"] is None:
                return len(self.st.heap[v]["#d"]) > 0
            if v.op == "new":
                return True
            if v in self.guards:
                return True
            if T.not_(v) in self.guards:
                return False
            for g in self.guards:
                if isinstance(g, Term) and g.op == "and":
                    if v in g.args[0]:
                        return True
                    if T.not_(v) in g.args[0]:
                        return False
                if isinstance(g, Term) and g.op == "not" and isinstance(g.args[0], Term) and g.args[0].op == "or" \
                        and v in g.args[0].args[0]:
                    return False
            return v
        return v

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fid):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If):
                return self.do_if(s, stmts[i + 1:], fid)
            r = self.stmt(s, fid)
            if r is not None:
                return r
        return ("fall", None)

    def do_if(self, s, rest, fid):
        c = self.truth(self.ev(s.test, fid))
        if c is True:
            self.refine(s.test, fid, True)
            return self.block(list(s.body) + list(rest), fid)
        if c is False:
            self.refine(s.test, fid, False)
            return self.block(list(s.orelse) + list(rest), fid)
        if not isinstance(c, Term):
            c = self.unk(s, "condition")
        st0 = self.st
        outs = []
        for cond, body in ((c, s.body), (T.not_(c), s.orelse)):
            self.st = st0.fork()
            self.guards.append(cond)
            self.refine(s.test, fid, cond is c)
            o = self.block(body, fid) if body else ("fall", None)
            self.guards.pop()
            outs.append((o, self.st))
        (o1, s1), (o2, s2) = outs
        if o1[0] == "fall" and o2[0] == "fall":
            self.st = self.merge(c, s1, s2)
            return self.block(rest, fid)
        if o1[0] == "raise" and o2[0] == "raise":
            self.st = s1
            return o1
        # one side leaves the block: walk the rest on the side that falls through
        if o1[0] == "fall":
            self.st = s1
            self.guards.append(c)
            o1 = self.block(rest, fid)
            self.guards.pop()
            s1 = self.st
        elif o2[0] == "fall":
            self.st = s2
            self.guards.append(T.not_(c))
            o2 = self.block(rest, fid)
            self.guards.pop()
            s2 = self.st
        if o1[0] == "raise":
            self.st = s2
            return o2
        if o2[0] == "raise":
            self.st = s1
            return o1
        self.st = self.merge(c, s1, s2)
        if o1[0] == o2[0]:
            if o1[0] == "ret":
                return ("ret", self.select(c, o1[1], o2[1]))
            return o1
        if {o1[0], o2[0]} <= {"fall", "continue"}:
            return ("fall", None) if o1[0] == "fall" or o2[0] == "fall" else o1
        if {o1[0], o2[0]} == {"ret", "fall"}:
            # the end of the function body: falling through returns None
            return ("ret", self.select(c, o1[1], o2[1]))
        if "break" in (o1[0], o2[0]):
            return ("maybreak", c if o1[0] == "break" else T.not_(c))
        return ("ret", self.unk(s, "mixed control flow"))

    def refine(self, test, fid, val):
        """isinstance refinements implied by a test that is true (val) or false"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, fid, not val)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) is val:
                for v in test.values:
                    self.refine(v, fid, val)
            return
        if not val:
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" \
                and len(test.args) == 2:
            a = test.args[0]
            if isinstance(a, ast.NamedExpr):
                a = a.target
            try:
                t = self.ev(a, fid)
                c = self.ev(test.args[1], fid)
            except Unsupported:
                return
            if isinstance(t, Term) and isinstance(c, ClassInfo):
                ty = self.typeof(t)
                if ty is None or c.is_sub(ty[0]):
                    self.st.types[t] = (c, ty[1] if ty else False)

    def stmt(self, s, fid):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return None
            self.ev(s.value, fid)
            return None
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, fid)
            for t in s.targets:
                self.assign(t, v, fid)
            return None
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, fid)
                self.assign(s.target, v, fid)
            return None
        if isinstance(s, ast.AugAssign):
            cur = self.ev(ast.copy_location(_load(s.target), s), fid)
            if self.is_list(cur) and isinstance(s.op, ast.Add):
                from . import lib
                lib.call_method(self, cur, "extend", [self.ev(s.value, fid)], {}, s)
                return None
            rhs = self.ev(s.value, fid)
            if isinstance(s.op, ast.BitOr) and isinstance(cur, Term) and (self.is_dict(cur) or self.as_dict(cur)):
                from . import lib
                lib.call_method(self, cur, "update", [rhs], {}, s)
                return None
            v = self.binop(s.op, cur, rhs, s)
            self.assign(s.target, v, fid)
            return None
        if isinstance(s, ast.Return):
            return ("ret", self.ev(s.value, fid) if s.value is not None else None)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            cls = self.st.frames[fid][2][1]
            module = self.st.frames[fid][2][0]
            fn = self.make_func(s, fid, module, None)
            self.st.setvar(fid, s.name, fn)
            return None
        if isinstance(s, ast.Pass) or isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.st.setvar(fid, a.asname or a.name.split(".")[0], self.import_value(a.name if a.asname else a.name.split(".")[0]))
            elif isinstance(s, ast.ImportFrom) and not s.level:
                for a in s.names:
                    self.st.setvar(fid, a.asname or a.name, self.import_value((s.module or "") + "." + a.name))
            elif isinstance(s, ast.Nonlocal):
                d = dict(self.st.frames[fid][1])
                d["#nonlocal"] = tuple(d.get("#nonlocal", ())) + tuple(s.names)
                self.st.frames[fid] = (self.st.frames[fid][0], d, self.st.frames[fid][2])
            return None
        if isinstance(s, ast.Assert):
            c = self.truth(self.ev(s.test, fid))
            self.refine(s.test, fid, True)
            self.emit("assert", s, cond=c)
            if c is False:
                return ("raise", "AssertionError")
            return None
        if isinstance(s, ast.Raise):
            v = None
            name = None
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                name = dotted(e)
            self.emit("raise", s, exc=name)
            return ("raise", name)
        if isinstance(s, ast.For):
            return self.do_for(s, fid)
        if isinstance(s, ast.While):
            return self.do_while(s, fid)
        if isinstance(s, ast.Break):
            return ("break", None)
        if isinstance(s, ast.Continue):
            return ("continue", None)
        if isinstance(s, ast.Try):
            n0 = len(self.events)
            st0 = self.st.fork()
            r = self.block(s.body, fid)
            if r[0] == "raise":
                # the handler runs on the state before the raise
                for h in s.handlers:
                    rr = self.block(h.body, fid)
                    if rr[0] != "fall":
                        return rr
                    break
                return None
            # a handler that re-raises does not change the normal result
            st1 = self.st
            for h in s.handlers:
                c = mk("exc", self.site(h))
                self.st = st0.fork()
                self.guards.append(c)
                rr = self.block(h.body, fid)
                self.guards.pop()
                if rr[0] == "raise":
                    continue
                self.st = self.merge(c, self.st, st1)
                if rr[0] == "ret" and r[0] == "ret":
                    return ("ret", self.select(c, rr[1], r[1]))
                st1 = self.st
            self.st = st1
            if r[0] != "fall":
                return r
            r = self.block(s.orelse, fid)
            if r[0] != "fall":
                return r
            r = self.block(s.finalbody, fid)
            return None if r[0] == "fall" else r
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, fid)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fid)
            r = self.block(s.body, fid)
            return None if r[0] == "fall" else r
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    d = dict(self.st.frames[fid][1])
                    d.pop(t.id, None)
                    self.st.frames[fid] = (self.st.frames[fid][0], d, self.st.frames[fid][2])
                else:
                    self.emit("delete", t)
            return None
        if isinstance(s, ast.ClassDef):
            self.st.setvar(fid, s.name, self.unk(s, "local class"))
            return None
        if isinstance(s, ast.Match):
            return self.do_match(s, fid)
        self.unk(s, f"statement {type(s).__name__}")
        raise Unsupported(f"statement {type(s).__name__} @ {self.site(s)}")

    def do_match(self, s, fid):
        subj = self.ev(s.subject, fid)
        name = f"#m{self.fcount}"
        self.st.setvar(fid, name, subj)
        chain = []
        for case in reversed(s.cases):
            pat = case.pattern
            if isinstance(pat, ast.MatchAs) and pat.pattern is None:
                body = list(case.body)
                if pat.name:
                    body = [ast.Assign([ast.Name(pat.name, ast.Store())], ast.Name(name, ast.Load()))] + body
                chain = body if case.guard is None else [ast.If(case.guard, body, chain)]
            elif isinstance(pat, ast.MatchValue):
                t = ast.Compare(ast.Name(name, ast.Load()), [ast.Eq()], [pat.value])
                chain = [ast.If(t, list(case.body), chain)]
            elif isinstance(pat, ast.MatchSingleton):
                t = ast.Compare(ast.Name(name, ast.Load()), [ast.Is()], [ast.Constant(pat.value)])
                chain = [ast.If(t, list(case.body), chain)]
            else:
                raise Unsupported(f"match pattern @ {self.site(s)}")
        for n in chain:
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
        r = self.block(chain, fid)
        return None if r[0] == "fall" else r

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            d = self.st.frames[fid][1]
            if t.id in d.get("#nonlocal", ()):
                f = self.st.frames[fid][0]
                while f is not None:
                    if t.id in self.st.frames[f][1]:
                        self.st.setvar(f, t.id, v)
                        self.emit("nonlocal", t, name=t.id)
                        return
                    f = self.st.frames[f][0]
            self.st.setvar(fid, t.id, v)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fid)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            it = self.items(v)
            if it is not None and not any(isinstance(x, Seg) for x in it):
                if star:
                    k = star[0]
                    post = n - k - 1
                    parts = list(it[:k]) + [self.new_list(it[k:len(it) - post])] + list(it[len(it) - post:] if post else [])
                    for e, x in zip(t.elts, parts):
                        self.assign(e, x, fid)
                    return
                if len(it) != n:
                    for e in t.elts:
                        self.assign(e, self.unk(t, "unpacking arity"), fid)
                    return
                for e, x in zip(t.elts, it):
                    self.assign(e, x, fid)
                return
            if isinstance(v, Term):
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e, self.unk(t, "starred unpack"), fid)
                    else:
                        self.assign(e, self.index(v, i, t), fid)
                return
            for e in t.elts:
                self.assign(e, self.unk(t, "unpack"), fid)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            self.set_attr(o, t.attr, v, t)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            k = self.ev(t.slice, fid)
            self.set_item(o, k, v, t)
            return
        raise Unsupported(f"assignment target @ {self.site(t)}")

    def set_attr(self, o, name, v, node):
        self.emit("setattr", node, obj=o, name=name, value=v)
        if isinstance(o, Term):
            if o.op == "sel":
                for br in (1, 2):
                    x = o.args[br]
                    old = self.get_attr(x, name, node)
                    c = o.args[0] if br == 1 else T.not_(o.args[0])
                    self.st.setfield(x, name, self.select(c, v, old))
                return
            self.st.setfield(o, name, v)

    def set_item(self, o, k, v, node):
        self.emit("setitem", node, obj=o, key=k, value=v)
        if isinstance(o, Term):
            if self.is_list(o):
                it = list(self.items(o))
                c = T.const_of(k)
                if c is not None and not any(isinstance(x, Seg) for x in it) and -len(it) <= c < len(it):
                    it[int(c)] = v
                    self.st.setfield(o, "#items", tuple(it))
                    return
                if it and c is None and isinstance(k, Term) and self._zero_run(it):
                    # one entry of a list of equal ones
                    i, n = fresh("i", 0), it[0].n if isinstance(it[0], Seg) else len(it)
                    old = it[0].items[0] if isinstance(it[0], Seg) else it[0]
                    self.st.setfield(o, "#items", (Seg(i, (mk("oneat", i, self.freeze(k), self.freeze(v), self.freeze(old)),), n),))
                    return
                self.st.setfield(o, "#items", (self.unk(node, "list store"),))
                return
            rec = self.st.heap.get(o, {})
            pairs = list(rec.get("#d", ()))
            for i in range(len(pairs) - 1, -1, -1):
                if isinstance(pairs[i], Seg):
                    pairs.append((k, v))
                    break
                if same(pairs[i][0], k):
                    pairs[i] = (pairs[i][0], v)
                    break
            else:
                pairs.append((k, v))
            d = dict(rec)
            d["#d"] = tuple(pairs)
            if "#base" not in d:
                d["#base"] = o if o.op != "new" else None
            self.st.heap[o] = d

    def _zero_run(self, it):
        """a list of equal constants"""
        if len(it) == 1 and isinstance(it[0], Seg):
            return len(it[0].items) == 1 and T.const_of(it[0].items[0]) is not None
        return all(not isinstance(x, Seg) and T.const_of(x) is not None and same(x, it[0]) for x in it)

    # ---------------------------------------------------------------- loops
    def iterate(self, v, node):
        """-> list of ('item', value) / ('run', n, elem_fn)"""
        it = self.items(v)
        if it is not None:
            if isinstance(v, Term) and v.op == "arr" and len(it) > 64:
                it = None
        if it is not None:
            out = []
            for x in it:
                if isinstance(x, Seg):
                    out.append(("run", x.n, x))
                else:
                    out.append(("item", x))
            return out
        if self.is_dict(v):
            r = self.st.heap[v]
            if any(isinstance(x, Seg) for x in r["#d"]):
                return None
            if r["#base"] is None:
                return [("item", k) for k, _ in r["#d"]]
        if isinstance(v, Term):
            if v.op == "arange":
                lo, hi, st = v.args
                c = T.const_of(hi)
                n = hi
                if c is not None and c <= 64 and T.const_of(lo) is not None:
                    return [("item", T.add(lo, T.mul(i, st))) for i in range(int(c))]
                return [("run", n, lambda i: T.add(lo, T.mul(i, st)))]
            if v.op == "zip":
                parts = [self.iterate(x, node) for x in v.args[0]]
                if all(all(p[0] == "item" for p in q) for q in parts):
                    return [("item", tuple(x[1] for x in row)) for row in zip(*parts)]
                if any(all(p[0] == "item" for p in q) for q in parts):
                    k = min(len(q) for q in parts if all(p[0] == "item" for p in q))
                    if all(all(p[0] == "item" for p in q) or (len(q) == 1) for q in parts):
                        rows = []
                        for i in range(k):
                            rows.append(("item", tuple(q[i][1] if q[0][0] == "item" else self._runelem(q[0], i) for q in parts)))
                        return rows
                if all(len(q) == 1 and q[0][0] == "run" for q in parts):
                    return [("run", parts[0][0][1], lambda i: tuple(self._runelem(q[0], i) for q in parts))]
                return None
            if v.op == "enum":
                q = self.iterate(v.args[0], node)
                if q is None:
                    return None
                if all(p[0] == "item" for p in q):
                    return [("item", (T.add(v.args[1], i), p[1])) for i, p in enumerate(q)]
                if len(q) == 1 and not isinstance(q[0][2], Seg):
                    return [("run", q[0][1], lambda i: (T.add(v.args[1], i), self._runelem(q[0], i)))]
                if any(p[0] == "run" and not isinstance(p[2], Seg) for p in q):
                    return None
                out, off = [], v.args[1]
                for p in q:
                    if p[0] == "item":
                        out.append(("item", (off, p[1])))
                        off = T.add(off, 1)
                        continue
                    g, m = p[2], len(p[2].items)
                    at = [T.add(off, T.mul(m, g.idx), k) for k in range(m)]
                    out.append(("run", p[1], Seg(g.idx, tuple(zip(at, g.items)), p[1])))
                    off = T.add(off, T.mul(m, p[1]))
                return out
            if v.op == "ditems":
                if self.is_dict(v.args[0]):
                    r = self.st.heap[v.args[0]]
                    if any(isinstance(x, Seg) for x in r["#d"]):
                        return None
                    if r["#base"] is None:
                        return [("item", (k, x)) for k, x in r["#d"]]
                b = v.args[0]
                return [("run", mk("len", b), lambda i: (mk("dkey", b, i), mk("dval", b, i)))]
            if v.op == "new" and not self.is_list(v):
                return None
            n = T.length(v)
            return [("run", n, lambda i: T.elem(v, i))]
        return None

    def _by_pieces(self, s, v, fid):
        """the places of a list built in loops, run over by their number, are taken piece by piece as the list itself is"""
        if not (isinstance(v, Term) and v.op == "arange" and isinstance(s.target, ast.Name)
                and T.const_of(v.args[0]) == 0 and T.const_of(v.args[2]) == 1 and T.const_of(v.args[1]) is None):
            return None
        for b in s.body:
            for x in ast.walk(b):
                if not (isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == s.target.id):
                    continue
                if not all(isinstance(y, (ast.Name, ast.Attribute, ast.expr_context)) for y in ast.walk(x.value)):
                    continue
                names = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                if not all(n in self.st.frames[fid][1] for n in names):
                    continue
                o = self.ev(x.value, fid)
                n = 0
                for y in self.items(o) if self.is_list(o) else ():
                    n = T.add(n, T.mul(len(y.items), y.n) if isinstance(y, Seg) else 1)
                if T.same(n, v.args[1]):
                    return [("item", p[1][0]) if p[0] == "item" else
                            ("run", p[1], Seg(p[2].idx, tuple(y[0] for y in p[2].items), p[1]))
                            for p in self.iterate(mk("enum", o, 0), s)]
        return None

    def _in_pieces(self, it, k):
        """the item at a place given as (start of a piece) + (a counter over that piece)"""
        off = 0
        for x in it:
            if not isinstance(x, Seg):
                if T.same(off, k):
                    return (x,)
                off = T.add(off, 1)
                continue
            m = len(x.items)
            d = T.sub(k, off)
            for v in (T.free_vars(d) if isinstance(d, Term) else ()):
                if v in ints.COUNT and T.same(ints.COUNT[v], x.n):
                    c = T.const_of(T.sub(d, T.mul(m, v)))
                    if c is not None and 0 <= c < m:
                        return (T.subst(self.freeze(x.items[int(c)]), {x.idx: v}),)
            off = T.add(off, T.mul(m, x.n))
        return None

    def _runelem(self, q, i):
        f = q[2]
        if isinstance(f, Seg):
            if len(f.items) == 1:
                return T.subst(self.freeze(f.items[0]), {f.idx: i})
            return mk("unk", "segment element", ())
        return f(i)

    def do_for(self, s, fid):
        v = self.ev(s.iter, fid)
        if isinstance(v, Term) and v.op == "sel" and any(self.is_list(x) for x in v.args[1:]):
            # a loop over one of two lists
            name = f"#for{s.lineno}"
            side = []
            for k, x in enumerate(v.args):
                self.st.setvar(fid, name + str(k), x)
                side.append(ast.copy_location(ast.Name(name + str(k), ast.Load()), s.iter))
            loops = [[ast.copy_location(ast.For(s.target, x, s.body, s.orelse), s)] for x in side[1:]]
            return None if (r := self.do_if(ast.copy_location(ast.If(side[0], *loops), s), [], fid))[0] == "fall" else r
        seq = self._by_pieces(s, v, fid) or self.iterate(v, s)
        if seq is None:
            v = self.unk(s, "iteration", v)
            seq = [("run", T.length(v), lambda i: T.elem(v, i))]
        for e in seq:
            if e[0] == "item":
                self.assign(s.target, e[1], fid)
                r = self.block(s.body, fid)
                if r[0] == "break":
                    return None
                if r[0] == "maybreak":
                    return self._havoc(s, fid)
                if r[0] in ("ret", "raise"):
                    return r
            else:
                n, src = e[1], e[2]
                r = self.run_loop(s, fid, n, src)
                if r is not None:
                    return r
        r = self.block(s.orelse, fid)
        return None if r[0] == "fall" else r

    def _havoc(self, s, fid):
        """give up on a loop: everything it assigns becomes unknown"""
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in names:
            self.st.setvar(fid, n, self.unk(s, f"loop-assigned {n}"))
        return None

    def do_while(self, s, fid):
        c = self.truth(self.ev(s.test, fid))
        k = 0
        while c is True and k < 64:
            r = self.block(s.body, fid)
            if r[0] == "break":
                return None
            if r[0] in ("ret", "raise"):
                return r
            if r[0] == "maybreak":
                return self._havoc(s, fid)
            c = self.truth(self.ev(s.test, fid))
            k += 1
        if c is False:
            return None
        # symbolic: recognise a counter
        r = self.run_loop(s, fid, None, None, while_test=s.test)
        return r

    def run_loop(self, s, fid, n, src, while_test=None):
        """summarise `for target in <n elements>: body` (or a counted while)"""
        idx = fresh("i", 0)
        ints.counter(idx, n)
        ret = [None]
        st0 = self.st

        def bind(i):
            if while_test is not None:
                return [None]
            if isinstance(src, Seg):
                def at(x):
                    if isinstance(x, tuple):
                        return like(x, [at(y) for y in x])
                    if isinstance(x, SliceV):
                        return SliceV(at(x.lo), at(x.hi), at(x.st))
                    return T.subst(self.freeze(x), {src.idx: i}) if isinstance(x, Term) else x
                return [at(x) for x in src.items]
            return [src(i)]

        def run_body(i, guard=None):
            for x in bind(i):
                if while_test is None:
                    self.assign(s.target, x, fid)
                r = self.block(s.body, fid)
                if r[0] in ("break", "maybreak"):
                    ret[0] = "break"
                elif r[0] in ("ret", "raise"):
                    ret[0] = r

        # 1. discover the locations the body changes
        locs = []
        for _ in range(4):
            ev0, un0 = len(self.events), len(self.unks)
            self.st = st0.fork()
            self._set_phis(locs, [self._phi_for(self._get(st0, l), l) for l in locs])
            self.ctx.append("loop")
            before = self.st.fork()
            self.loops.append((idx, n))
            run_body(idx)
            self.loops.pop()
            self.ctx.pop()
            after = self.st
            new = [l for l in self._diff(before, after, st0, s, fid) if l not in locs]
            del self.events[ev0:]
            del self.unks[un0:]
            if not new:
                break
            locs += new
        self.st = st0
        if ret[0] == "break":
            self.st = st0.fork()
            for l in locs:
                self._put(l, self.unk(s, "loop with break"))
            return None
        inits = [self._get(st0, l) for l in locs]
        items = [k for k, l in enumerate(locs) if l[0] == "h" and l[2] in ("#items", "#d")]
        appended, infront = {}, set()
        # lists whose last item the body reads: that item is carried along
        backs = any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.UnaryOp) and isinstance(x.slice.op, ast.USub)
                    for b in s.body for x in ast.walk(b))
        lasts = {k: len(locs) + j for j, k in enumerate(
            k for k in items if backs and locs[k][2] == "#items" and inits[k] and isinstance(inits[k][-1], Term)
            and not self.is_list(inits[k][-1]))}
        inits += [inits[k][-1] for k in lasts]

        def run(vals, i):
            self.st = st0.fork()
            for k, (l, x) in enumerate(zip(locs, vals)):
                if k in items:
                    x = (self._seqphi(l),)
                    if k in lasts:
                        x = (Seg(mk("var", "#seq"), (), mk("seqphi", l[1])), vals[lasts[k]])
                self._put(l, x)
            self.ctx.append("loop")
            if while_test is not None:
                self._wtest = self.truth(self.ev(while_test, fid))
            self.loops.append((i, n))
            run_body(i)
            self.loops.pop()
            self.ctx.pop()
            nx = [self._get(self.st, l) for l in locs]
            nx += [nx[k][-1] if nx[k] else vals[lasts[k]] for k in lasts]
            for k in items:
                a = nx[k]
                if k in lasts:
                    good = len(a) > 1 and a[1] is vals[lasts[k]] and not any(isinstance(x, Seg) for x in a[1:])
                    appended[k] = tuple(self._fz(x) for x in a[2:]) if good else None
                elif isinstance(a, tuple) and a and isinstance(a[0], Term) and a[0].op == "seqphi":
                    appended[k] = tuple(self._fz(x) for x in a[1:])
                elif isinstance(a, tuple) and a and isinstance(a[0], Seg) and isinstance(a[0].n, Term) \
                        and a[0].n.op == "seqphi":
                    appended[k] = tuple((self._fz(x[0]), self._fz(x[1])) if not isinstance(x, Seg) else x
                                        for x in a[1:])
                    if any(isinstance(x, Seg) for x in appended[k]):
                        appended[k] = None
                elif isinstance(a, tuple) and len(a) > 1 and isinstance(a[-1], Term) and a[-1].op == "seqphi" \
                        and not any(isinstance(x, Seg) for x in a):
                    appended[k] = tuple(self._fz(x) for x in a[:-1])
                    infront.add(k)
                else:
                    appended[k] = None
                nx[k] = inits[k]
            return nx, ()

        # counted while
        if while_test is not None:
            res = self._while_count(locs, inits, run, idx, items)
            if res is None:
                self.st = st0.fork()
                for l in locs:
                    self._put(l, self.unk(s, "while loop"))
                return None
            n = res
        fins, _, stf = self.fix_loop(inits, run, idx, n, fixed=set(items))
        base = st0.fork()
        # values built inside the body mention the carried values of their own iteration
        at = dict(self.last_phis)

        def own(x):
            if isinstance(x, tuple):
                return like(x, [own(y) for y in x])
            return T.subst(x, at) if isinstance(x, Term) and T.free_vars(x) & set(at) else x
        appended = {k: None if a is None else own(a) for k, a in appended.items()}
        # keep allocations and refinements made inside the body
        for o, h in stf.heap.items():
            if o not in base.heap:
                base.heap[o] = {f: own(v) for f, v in h.items()} if isinstance(h, dict) else h
        for f, fr in stf.frames.items():
            if f not in base.frames:
                base.frames[f] = fr
        base.types = dict(stf.types)
        self.st = base
        for k, l in enumerate(locs):
            if k in items:
                if appended.get(k) is None and l[2] == "#d":
                    self._put(l, ((self.unk(s, "dict rewritten in loop"), None),))
                elif appended.get(k) is None:
                    self._put(l, (self.unk(s, "list rewritten in loop"),))
                elif k in infront:
                    self._put(l, turned((Seg(idx, tuple(reversed(appended[k])), n),)) + tuple(inits[k]))
                elif appended[k]:
                    self._put(l, tuple(inits[k]) + (Seg(idx, appended[k], n),))
            else:
                self._put(l, fins[k])
        if ret[0] not in (None, "break"):
            if ret[0][0] == "ret":
                return ("ret", self.unk(s, "return inside loop"))
        return None

    def _fz(self, x):
        return x if isinstance(x, (str, int, float, bool, type(None))) or isinstance(x, CALLABLES) else self.freeze(x)

    def _while_count(self, locs, inits, run, idx, items):
        ev0, un0 = len(self.events), len(self.unks)
        phis = [x if k in items else (fresh("p", T.rank(x)) if isinstance(x, Term) or is_num(x) else x)
                for k, x in enumerate(inits)]
        nx, _ = run(phis, idx)
        test = self._wtest
        del self.events[ev0:]
        del self.unks[un0:]
        if not (isinstance(test, Term) and test.op in ("lt0", "le0")):
            return None
        # find the counter: test linear in a phi with constant increment
        for k, p in enumerate(phis):
            if not isinstance(p, Term) or p.op != "var":
                continue
            d = T.const_of(T.sub(nx[k], p)) if (isinstance(nx[k], Term) or is_num(nx[k])) else None
            step = T.sub(nx[k], p) if (isinstance(nx[k], Term) or is_num(nx[k])) else None
            if step is None or (T.free_vars(step) & set(x for x in phis if isinstance(x, Term))):
                continue
            if p in T.free_vars(test):
                e = test.args[0]
                zero = T.subst(e, {p: 0})
                one = T.subst(e, {p: 1})
                slope = T.const_of(T.sub(one, zero))
                if slope is None or slope <= 0:
                    continue
                # slope*p + zero < 0   <=>   p < -zero/slope
                hi = T.div(T.neg(zero), slope)
                if test.op == "le0":
                    hi = T.add(hi, 1)
                return T.ceildiv(T.sub(hi, inits[k]), step)
        return None

    def _get(self, st, l):
        if l[0] == "f":
            return st.frames[l[1]][1].get(l[2])
        if l[0] == "d":
            return find_pair(st.heap[l[1]]["#d"], l[2])[0]
        rec = st.heap.get(l[1], {})
        if l[2] in rec:
            return rec[l[2]]
        if l[2].startswith("#"):
            return ()
        ty = self.typeof(l[1])
        hit = ty[0].lookup(l[2]) if ty and l[1].op == "new" else None
        if hit and hit[1] != "method" and hit[2][1] is not None:      # class-level default
            return self.eval_class_attr(hit[0], l[2], hit[2][1])
        return T.attr(l[1], l[2])

    def _put(self, l, v):
        if l[0] == "f":
            self.st.setvar(l[1], l[2], v)
        elif l[0] == "d":
            self.st.setfield(l[1], "#d", tuple((k, v) if same(k, l[2]) else (k, w)
                                               for k, w in self.st.heap[l[1]]["#d"]))
        else:
            if l[2] == "#d" and "#base" not in self.st.heap.get(l[1], {}):
                self.st.setfield(l[1], "#base", l[1] if l[1].op != "new" else None)
            self.st.setfield(l[1], l[2], v)

    def _set_phis(self, locs, vals):
        for l, v in zip(locs, vals):
            self._put(l, v)

    def _seqphi(self, l):
        m = mk("seqphi", l[1])
        return m if l[2] == "#items" else Seg(mk("var", "#seq"), (), m)

    def _phi_for(self, v, l=None):
        if l is not None and l[0] == "h" and l[2] in ("#items", "#d"):
            return (self._seqphi(l),)
        if isinstance(v, tuple):
            return like(v, [x if self.is_dict(x) or self.is_list(x) else self._phi_for(x) for x in v])
        if isinstance(v, Term) or is_num(v) or isinstance(v, bool):
            t = fresh("p", T.rank(v))
            if isinstance(v, Term) and self.typeof(v):
                TYPES[t] = self.typeof(v)
            return t
        return v

    def _diff(self, before, after, st0, s, fid):
        """locations existing before the loop whose value the body changed"""
        out = []
        targets = set()
        if isinstance(s, ast.For):
            targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for f, fr in st0.frames.items():
            a, b = before.frames.get(f), after.frames.get(f)
            if a is b or b is None:
                continue
            for k, v in b[1].items():
                if k in fr[1] and k not in (targets if f == fid else ()):
                    if not self._same(a[1].get(k), v):
                        out.append(("f", f, k))
        for o in list(after.heap):
            if o not in st0.heap and o.op == "new":
                continue
            a, b = before.heap.get(o, {}), after.heap[o]
            if a is b:
                continue
            for k, v in b.items():
                if k == "#base" and o.op != "new":
                    continue
                if k not in a or not self._same(a.get(k), v):
                    x = a.get(k)
                    if k == "#d" and x is not None and len(x) == len(v) \
                            and not any(isinstance(y, Seg) for y in x + v) \
                            and all(same(y[0], z[0]) for y, z in zip(x, v)):
                        out += [("d", o, y[0]) for y, z in zip(x, v) if not self._same(y[1], z[1])]
                    else:
                        out.append(("h", o, k))
        return out

    def _same(self, a, b):
        if same(a, b):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self._same(x, y) for x, y in zip(a, b))
        if isinstance(a, (Term, tuple)) or isinstance(b, (Term, tuple)):
            return False
        return type(a) is type(b) and a == b

    def fix_loop(self, inits, run, idx, n, fixed=(), rev=False):
        """Find invariant and induction variables; summarise the rest.

        run(values, idx) -> (next values, per-iteration outputs).
        Returns (final values, stacked outputs, state after the last walk)."""
        flat, shape = [], []
        ints.counter(idx, n)
        # nested tuples are carried leaf by leaf
        leaves, rebuild = flatten_tree(inits)
        mode = []
        for k, x in enumerate(leaves):
            data = (isinstance(x, Term) and not self.typeof(x) and not self.is_dict(x) and not self.is_list(x)
                    and x.op not in ("new", "fn", "opqfn", "lib")) or is_num(x) or isinstance(x, bool)
            mode.append("phi" if data else "inv")
        phis = [None] * len(leaves)
        locked = set()
        for attempt in range(10):
            vals = []
            for k, x in enumerate(leaves):
                if mode[k] == "inv":
                    vals.append(x)
                elif mode[k] == "phi":
                    if phis[k] is None:
                        phis[k] = self._phi_for(x)
                    vals.append(phis[k])
                else:
                    vals.append(T.add(x, T.mul(idx, mode[k][1])))
            ev0, un0 = len(self.events), len(self.unks)
            nx, ys = run(rebuild(vals), idx)
            nl, _ = flatten_tree(self._fit(inits, nx))
            changed = False
            if len(nl) != len(leaves):
                # the carried structure changes: give up
                self.last_phis = {}
                u = self.unk(None, "carried structure")
                return rebuild([u] * len(leaves)), self._unk_tree(ys, u), self.st
            for k in range(len(leaves)):
                a = nl[k]
                if mode[k] == "inv":
                    if not self._same(a, leaves[k]):
                        mode[k] = "phi"
                        if not (isinstance(leaves[k], Term) or is_num(leaves[k]) or isinstance(leaves[k], bool)):
                            phis[k] = fresh("p")
                        locked.add(k)
                        changed = True
                elif mode[k] == "phi":
                    if k not in locked and self._same(a, phis[k]):
                        mode[k] = "inv"
                        changed = True
                    elif k not in locked and (isinstance(a, Term) or is_num(a)) and not isinstance(a, bool) \
                            and T.rank(leaves[k]) in (0,) and a is not phis[k]:
                        d = T.sub(a, phis[k])
                        live = {p for p, m in zip(phis, mode) if p is not None and m == "phi"}
                        if not isinstance(d, Term) or not (T.free_vars(d) & (live | {idx})):
                            if not isinstance(d, Term) or _is_affine_inc(d):
                                mode[k] = ("ind", d)
                                changed = True
                else:
                    want = T.add(leaves[k], T.mul(T.add(idx, 1), mode[k][1]))
                    if not self._same(a, want):
                        mode[k] = "phi"
                        locked.add(k)
                        changed = True
            if not changed:
                break
            if attempt < 9:
                del self.events[ev0:]
                del self.unks[un0:]
        stf = self.st
        live = [k for k in range(len(leaves)) if mode[k] == "phi"]
        yl, yrebuild = flatten_tree(ys)
        nexts = [self._termify(self._as_update(phis[k], leaves[k], nl[k])) for k in live]
        ysf = [self._termify(y) for y in yl]
        lp = T.loop_term([phis[k] for k in live], [self._termify(leaves[k]) for k in live], nexts, ysf, idx, n, False)
        self.last_phis = {phis[k]: T.pre(lp, j, idx) for j, k in enumerate(live)}
        fins = []
        for k in range(len(leaves)):
            if mode[k] == "inv":
                fins.append(leaves[k])
            elif mode[k] == "phi":
                t = T.fin(lp, live.index(k))
                if self.typeof(leaves[k]):
                    TYPES[t] = self.typeof(leaves[k])
                fins.append(t)
            else:
                fins.append(T.add(leaves[k], T.mul(n, mode[k][1])))
        outs = [y if y is None else T.stack(lp, m) for m, y in enumerate(yl)]
        return rebuild(fins), yrebuild(outs), stf

    def _fit(self, init, nx):
        """a carried tuple that the body rebinds to the result of a call is carried component by component"""
        if isinstance(init, (tuple, list)):
            if isinstance(nx, (tuple, list)):
                return like(nx, [self._fit(a, b) for a, b in zip(init, nx)]) if len(nx) == len(init) else nx
            if init and isinstance(nx, Term) and nx.op in ("app", "mcall") and not any(isinstance(x, Seg) for x in init):
                return tuple(self._fit(a, self.index(nx, i, None)) for i, a in enumerate(init))
        return nx

    def _as_update(self, phi, old, new):
        """an immutable object built anew in each iteration is the carried one with all its fields replaced"""
        a, b = self.typeof(old), self.typeof(new)
        if not (isinstance(new, Term) and new.op == "new" and a and b and a[0] is b[0] and isinstance(phi, Term)
                and any("Module" in str(x) for x in a[0].ext_bases())):
            return new
        t = phi
        for name, v in self.st.heap.get(new, {}).items():
            if name.startswith("#"):
                return new
            t = mk("upda", t, name, self.freeze(v))
        return t

    def _unk_tree(self, ys, u):
        l, rb = flatten_tree(ys)
        return rb([u] * len(l))

    def _termify(self, v):
        v = self.freeze(v)
        if isinstance(v, tuple):
            return mk("tup", v)
        return v

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fid):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} @ {self.site(e)}")
        return m(e, fid)

    def ev_Constant(self, e, fid):
        return e.value

    def ev_Name(self, e, fid):
        return self.lookup(fid, e.id, e)

    def ev_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.assign(e.target, v, fid)
        return v

    def ev_Tuple(self, e, fid):
        return tuple(self._elts(e.elts, fid))

    def _elts(self, elts, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fid)
                it = self.items(v)
                if it is None:
                    seq = self.iterate(v, x)
                    if seq is not None and all(p[0] == "item" for p in seq):
                        it = tuple(p[1] for p in seq)
                if it is None:
                    out.append(Seg(fresh("i", 0), (self.unk(x, "starred"),), T.length(v)))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(x, fid))
        return out

    def ev_List(self, e, fid):
        return self.new_list(self._elts(e.elts, fid))

    def ev_Set(self, e, fid):
        return mk("set", tuple(self.freeze(x) for x in self._elts(e.elts, fid)))

    def ev_Dict(self, e, fid):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                parts.append(self.ev(v, fid))
            else:
                parts.append((self.ev(k, fid), self.ev(v, fid)))
        return self.merge_dicts(parts)

    def merge_dicts(self, parts):
        """{**a, k: v, **b}: each part a dict (known or not) or one (key, value) pair"""
        pairs, base = [], None
        for d in parts:
            if isinstance(d, tuple):
                new = (d,)
            elif self.is_dict(d):
                r = self.st.heap[d]
                if r["#base"] is not None:
                    base = r["#base"]
                new = r["#d"]
            else:
                base, new = d, ()
            for x in new:
                if isinstance(x, Seg) or any(isinstance(y, Seg) for y in pairs):
                    pairs = pairs + [x]
                else:
                    pairs = [(a, b) for a, b in pairs if not same(a, x[0])] + [x]
        return self.new_dict(pairs, base)

    def pairs_of(self, v, node):
        """the (key, value) pairs and runs of pairs of a mapping or of a sequence of pairs, or None"""
        if self.is_dict(v):
            return list(self.st.heap[v]["#d"]) if self.st.heap[v]["#base"] is None else None
        if not (self.is_list(v) or isinstance(v, tuple) or isinstance(v, Term) and v.op in ("zip", "enum", "map")):
            return None
        seq = self.iterate(v, node)
        if seq is None:
            return None
        out = []
        for x in seq:
            if x[0] == "item":
                p = self.items(x[1])
                if p is None or len(p) != 2:
                    return None
                out.append(tuple(p))
            elif isinstance(x[2], Seg):
                ps = [self.items(y) for y in x[2].items]
                if any(p is None or len(p) != 2 for p in ps):
                    return None
                out.append(Seg(x[2].idx, tuple(tuple(p) for p in ps), x[1]))
            else:
                i = fresh("i", 0)
                p = self.items(self._runelem(x, i))
                if p is None or len(p) != 2:
                    return None
                out.append(Seg(i, (tuple(p),), x[1]))
        return out

    def ev_Lambda(self, e, fid):
        fn = Closure(e, fid, self.st.frames[fid][2][0], None)
        self.bind_defaults(fn, fid)
        return fn

    def ev_IfExp(self, e, fid):
        c = self.ev(e.test, fid)
        return self.branch(c, lambda: self.ev(e.body, fid), lambda: self.ev(e.orelse, fid))

    def ev_BoolOp(self, e, fid):
        vals = []
        isand = isinstance(e.op, ast.And)
        pushed = 0
        try:
            for x in e.values:
                v = self.ev(x, fid)
                t = self.truth(v)
                if t is (False if isand else True):
                    return v if not vals else (T.and_(*[self.truth(w) for w in vals], False) if isand and False else v)
                if t is (True if isand else False):
                    last = v
                    if x is e.values[-1]:
                        if not vals:
                            return v
                        vals.append(v)
                    continue
                vals.append(v)
                self.guards.append(t if isand else T.not_(t))
                pushed += 1
                if isand:
                    self.refine(x, fid, True)
        finally:
            for _ in range(pushed):
                self.guards.pop()
        if len(vals) == 1:
            return vals[0]
        ts = [self.truth(v) for v in vals]
        ts = [t if isinstance(t, (Term, bool)) else self.unk(e, "boolean operand") for t in ts]
        return T.and_(*ts) if isand else T.or_(*ts)

    def ev_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.USub):
            return T.neg(v) if self._arith(v) else self.unk(e, "negation", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return T.not_(t) if isinstance(t, (bool, Term)) else self.unk(e, "not", v)
        if isinstance(e.op, ast.Invert):
            if is_num(v):
                return ~v
            return T.not_(v) if isinstance(v, (bool, Term)) else self.unk(e, "invert", v)

    def _arith(self, v):
        return isinstance(v, (Term, int, float, Fraction)) and not self.is_list(v) and not self.is_dict(v)

    def ev_BinOp(self, e, fid):
        return self.binop(e.op, self.ev(e.left, fid), self.ev(e.right, fid), e)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.BitOr) and (isinstance(a, (ClassInfo, Lib)) or isinstance(b, (ClassInfo, Lib))):
            return (a, b)
        if isinstance(op, ast.BitOr) and (self.is_dict(a) or self.is_dict(b)):
            return self.merge_dicts(tuple(self.new_dict((), x) if isinstance(x, Term) and not self.is_dict(x) else x
                                          for x in (a, b)))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.fstr((a, b))
        if isinstance(op, ast.Add) and (isinstance(a, str) or isinstance(b, str) or _isstr(a) or _isstr(b)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return self.fstr(tuple(x if isinstance(x, str) or _isstr(x) or not isinstance(x, Term) else mk("fmt", x)
                                   for x in (a, b)))
        if isinstance(op, (ast.Add, ast.Mult)):
            ia, ib = (self.items(a) if (isinstance(a, tuple) or self.is_list(a)) else None,
                      self.items(b) if (isinstance(b, tuple) or self.is_list(b)) else None)
            if isinstance(op, ast.Add) and (ia is not None) and (ib is not None):
                r = tuple(ia) + tuple(ib)
                return r if isinstance(a, tuple) else self.new_list(r)
            if isinstance(op, ast.Add) and self.is_list(a) and isinstance(b, Term) and not self._arraylike(b):
                # list + unknown list
                i = fresh("i", 0)
                return self.new_list(tuple(ia) + (Seg(i, (T.elem(b, i),), T.length(b)),))
            if isinstance(op, ast.Add) and self.is_list(b) and isinstance(a, Term) and not self._arraylike(a):
                i = fresh("i", 0)
                return self.new_list((Seg(i, (T.elem(a, i),), T.length(a)),) + tuple(ib))
            if isinstance(op, ast.Mult) and (ia is not None or ib is not None):
                seq, k = (ia, b) if ia is not None else (ib, a)
                c = T.const_of(k)
                islist = self.is_list(a) or self.is_list(b)
                if c is not None and not any(isinstance(x, Seg) for x in seq) and c * len(seq) <= 256:
                    r = tuple(seq) * int(c)
                else:
                    r = (Seg(fresh("i", 0), tuple(seq), k),)
                return self.new_list(r) if islist else r
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        a, b = self._num(a), self._num(b)
        if not self._arith(a) or not self._arith(b):
            return self.unk(node, f"operator {type(op).__name__}", a, b)
        if isinstance(op, ast.Add):
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            if is_num(b) and b == 0:
                return self.unk(node, "division by zero")
            return T.div(a, b)
        if isinstance(op, ast.FloorDiv):
            return T.floordiv(a, b)
        if isinstance(op, ast.Mod):
            ca, cb = T.const_of(a), T.const_of(b)
            if ca is not None and cb:
                r = ca % cb
                return int(r) if r.denominator == 1 else r
            return T.mod(a, b)
        if isinstance(op, ast.Pow):
            return T.power(a, b)
        if isinstance(op, ast.MatMult):
            return T.dot(a, b)
        if isinstance(op, ast.BitAnd):
            return T.and_(a, b)
        if isinstance(op, ast.BitOr):
            return T.or_(a, b)
        if isinstance(op, ast.BitXor):
            return mk("xor", *sorted([a, b], key=lambda t: t.uid if isinstance(t, Term) else -1))
        return self.unk(node, f"operator {type(op).__name__}", a, b)

    def _arraylike(self, v):
        return isinstance(v, Term) and T.rank(v) is not None

    def _num(self, v):
        if self.is_list(v) or isinstance(v, tuple):
            it = self.items(v)
            if not any(isinstance(x, Seg) for x in it):
                return mk("arr", tuple(self.freeze(x) for x in it))
        return v

    def ev_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fid)
            out.append(self.compare(op, left, right, e))
            left = right
        if len(out) == 1:
            return out[0]
        return T.and_(*[o if isinstance(o, (bool, Term)) else self.unk(e, "comparison") for o in out])

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            r = None
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    r = True
                elif isinstance(o, Term):
                    if o.op in ("new", "poly", "arr") or self.typeof(o) or (T.rank(o) is not None):
                        r = False
                    else:
                        r = mk("isnone", o)
                else:
                    r = False
            elif isinstance(a, bool) or isinstance(b, bool):
                r = T.cmp_eq(a, b) if not (isinstance(a, bool) and isinstance(b, bool)) else a is b
            else:
                r = True if same(a, b) or (not isinstance(a, Term) and not isinstance(b, Term) and a == b) else \
                    (mk("is", self.freeze(a), self.freeze(b)) if isinstance(a, Term) or isinstance(b, Term) else False)
            return (not r if isinstance(r, bool) else T.not_(r)) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, node)
            return (not r if isinstance(r, bool) else T.not_(r)) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equals(a, b, node)
            return (not r if isinstance(r, bool) else T.not_(r)) if isinstance(op, ast.NotEq) else r
        a, b = self._num(a), self._num(b)
        if not self._arith(a) or not self._arith(b):
            return self.unk(node, "comparison", a, b)
        if isinstance(op, ast.Lt):
            return T.cmp_lt(a, b)
        if isinstance(op, ast.Gt):
            return T.cmp_lt(b, a)
        if isinstance(op, ast.LtE):
            return T.cmp_le(a, b)
        if isinstance(op, ast.GtE):
            return T.cmp_le(b, a)
        return self.unk(node, "comparison", a, b)

    def equals(self, a, b, node):
        if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return T.and_(*[self.equals(x, y, node) for x, y in zip(a, b)])
        if isinstance(a, (str,)) or isinstance(b, str):
            if isinstance(a, Term) or isinstance(b, Term):
                t, s = (a, b) if isinstance(a, Term) else (b, a)
                return mk("eqv", t, s)
            return False
        if self._arith(a) and self._arith(b):
            return T.cmp_eq(a, b)
        return mk("eqv", self.freeze(a), self.freeze(b))

    def contains(self, k, d, node):
        if self.is_dict(d):
            r = self.st.heap[d]
            if any(isinstance(x, Seg) for x in r["#d"]):
                return mk("in", self.freeze(k), self.freeze(d))
            for kk, _ in r["#d"]:
                if same(kk, k):
                    return True
            if r["#base"] is None and not isinstance(k, Term) and not any(isinstance(x[0], Term) for x in r["#d"]):
                return False
            if r["#base"] is not None and not r["#d"]:
                return mk("in", self.freeze(k), self.freeze(r["#base"]))
        it = self.items(d)
        if it is not None and not any(isinstance(x, Seg) for x in it):
            if any(same(x, k) or (not isinstance(x, Term) and not isinstance(k, Term) and x == k) for x in it):
                return True
            if not isinstance(k, Term) and not any(isinstance(x, Term) for x in it):
                return False
            return T.or_(*[self.equals(x, k, node) for x in it])
        if isinstance(d, Term) and d.op == "dkeys":
            return self.contains(k, d.args[0], node)
        if isinstance(d, str) and isinstance(k, str):
            return k in d
        return mk("in", self.freeze(k), self.freeze(d))

    def ev_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fid
            while f is not None:
                parent, d, (module, cls) = self.st.frames[f]
                if cls is not None:
                    args = d
                    first = next(iter(d.values()), None)
                    return Super(first, cls)
                f = parent
            return self.unk(e, "super")
        fn = self.ev(e.func, fid)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid)
                it = self.items(v)
                if it is not None and any(isinstance(x, Seg) for x in it) and not takes_run(fn, len(args)):
                    it = None
                if it is None:
                    args.append(self.unk(a, "starred argument", v))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, fid))
        for k in e.keywords:
            v = self.ev(k.value, fid)
            if k.arg is None:
                if self.is_dict(v) and self.st.heap[v]["#base"] is None:
                    for kk, vv in self.st.heap[v]["#d"]:
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, e)

    def ev_Attribute(self, e, fid):
        return self.get_attr(self.ev(e.value, fid), e.attr, e)

    def get_attr(self, o, name, node):
        if node is not None and isinstance(o, Term) and ("traced" in self.ctx or "scan" in self.ctx):
            ty = self.typeof(o)
            if ty:
                self.reads.append((ty[0], name, self.site(node), self.where(), o, tuple(self.compiled)))
        if isinstance(o, Module):
            return self.global_name(o, name, node)
        if isinstance(o, Lib):
            return lib_value(canon(o.name + "." + name))
        if isinstance(o, ClassInfo):
            hit = o.lookup(name)
            if hit:
                c, kind, n = hit
                if kind == "method":
                    return self.bind_method(None, c, name, n, o)
                if n[1] is not None:
                    return self.eval_class_attr(c, name, n[1])
            if name == "__name__":
                return o.name
            return MBound(mk("cls", o.qual), name)
        if isinstance(o, Super):
            hit = o.cls.lookup(name)
            ty = self.typeof(o.obj) if isinstance(o.obj, Term) else None
            start = ty[0] if ty else o.cls
            hit = start.lookup(name, after=o.cls)
            if hit and hit[1] == "method" and not self.p.is_abstract(hit[2]):
                return self.bind_method(o.obj, hit[0], name, hit[2], start)
            return Lib("builtins.noop")
        if isinstance(o, SliceV):
            return getattr(o, {"start": "lo", "stop": "hi", "step": "st"}.get(name, "lo"))
        if isinstance(o, SelFn):
            return self.select(o.c, self.get_attr(o.a, name, node), self.get_attr(o.b, name, node))
        if isinstance(o, (Closure, Bound, Part, Wrap, MBound)):
            if name == "__call__":
                return o
            if isinstance(o, MBound):
                return self.get_attr(mk("meth", self.freeze(o.obj), o.name), name, node)
            return self.unk(node, f"attribute {name} of function")
        if isinstance(o, Record):
            if name in o.names:
                return o[o.names.index(name)]
            if name == "_fields":
                return o.names
            hit = o.kind.lookup(name) if isinstance(o.kind, ClassInfo) else None
            if hit and hit[1] == "method":
                return self.bind_method(o, hit[0], name, hit[2], o.kind)
        if isinstance(o, (str, int, float, bool, tuple, Fraction)) or o is None:
            if isinstance(o, (int, float, Fraction)) and name in ("shape",):
                return ()
            if isinstance(o, (int, float, Fraction)) and name == "ndim":
                return 0
            return MBound(o, name)
        if isinstance(o, Term):
            rec = self.st.heap.get(o)
            if rec is not None and name in rec:
                return rec[name]
            if o.op in ("fin", "pre"):
                v = self.carried_attr(o, name, node)
                if v is not None:
                    return v
            if self.attr_hook:
                r = self.attr_hook(self, o, name)
                if r is not None:
                    return r
            if o.op == "sel":
                a, b = self.get_attr(o.args[1], name, node), self.get_attr(o.args[2], name, node)
                return self.select(o.args[0], a, b)
            if o.op == "upda":
                if o.args[1] == name:
                    return o.args[2]
                hit = None
                ty = self.typeof(o)
                if ty:
                    hit = ty[0].lookup(name)
                if not (hit and hit[1] == "method"):
                    return self.get_attr(o.args[0], name, node)
            if self.is_list(o) or self.is_dict(o):
                return MBound(o, name)
            ty = self.typeof(o)
            if ty:
                cls, exact = ty
                hit = cls.lookup(name)
                if hit:
                    c, kind, n = hit
                    if kind == "method":
                        return self.method_value(o, cls, exact, c, name, n, node)
                    ann, dflt = n
                    if dflt is not None and (ann is None or o.op == "new"):
                        v = self.class_attr_value(o, c, name, dflt)
                        if v is not None:
                            return v
                    t = T.attr(o, name)
                    if ann is not None:
                        self.annotate(t, ann, c.module)
                    return t
                if name == "__class__":
                    return cls if exact else mk("classof", o)
                if not exact:
                    # a subclass may define it
                    subs = [s for s in self.p.subclasses(cls) if s.lookup(name)]
                    if subs:
                        hit = subs[0].lookup(name)
                        if hit[1] == "method":
                            return MBound(o, name)
                return T.attr(o, name) if name not in ARRAY_METHODS else MBound(o, name)
            if name == "shape":
                return self.shape_of(o)
            if name == "ndim":
                r = T.rank(o)
                return r if r is not None else mk("ndim", o)
            if name == "T" or name == "mT":
                return T.transpose(o)
            if name == "dtype":
                if o.op == "cast":
                    return o.args[1]
                return mk("dtype", o)
            if name == "size":
                d = T.dims(o)
                return T.mul(*d) if d else mk("size", o)
            if name == "at":
                return mk("at", o)
            if name in ARRAY_METHODS or name in ("items", "keys", "values", "get") \
                    or name in ("update", "pop", "setdefault") and self.as_dict(o):
                return MBound(o, name)
            return T.attr(o, name)
        return self.unk(node, f"attribute {name}")

    def carried_attr(self, o, name, node):
        """attribute of a carried object that each iteration replaces by an updated copy"""
        lp, k = o.args[:2]
        phis, inits, nexts, ys, idx, n, rev = lp.args
        x, val = nexts[k], None
        while isinstance(x, Term) and x.op == "upda":
            if val is None and x.args[1] == name:
                val = x.args[2]
            x = x.args[0]
        if x is not phis[k] or nexts[k] is phis[k] or not self.typeof(inits[k]):
            return None
        a0 = self.freeze(self.get_attr(inits[k], name, node))
        if val is None:
            return a0
        q = fresh("p", T.rank(a0))
        old = T.attr(phis[k], name)
        sub_ = lambda t: T.expand(t, lambda u: q if u is old else None) if isinstance(t, Term) else t
        new = T.loop_term(list(phis) + [q], list(inits) + [a0], [sub_(t) for t in nexts] + [sub_(val)], [], idx, n, rev)
        t = T.fin(new, len(phis)) if o.op == "fin" else T.pre(new, len(phis), o.args[2])
        if self.typeof(a0):
            TYPES[t] = self.typeof(a0)
        return t

    def shape_of(self, o):
        d = T.dims(o)
        if d is not None:
            return tuple(d)
        return mk("shape", o)

    def eval_class_attr(self, c, name, node):
        k = (c.qual, name)
        if k not in self.globcache:
            self.globcache[k] = self.eval_in(node, self.new_frame(None, c.module), c.module)
        return self.globcache[k]

    def class_attr_value(self, o, c, name, dflt):
        # alias of a method: save_resource = save_model
        if isinstance(dflt, ast.Name) and dflt.id in c.methods:
            return self.method_value(o, c, False, c, dflt.id, c.methods[dflt.id], dflt)
        if isinstance(dflt, ast.Attribute):
            b = self.eval_in(dflt.value, self.new_frame(None, c.module), c.module)
            hit = b.lookup(dflt.attr) if isinstance(b, ClassInfo) else None
            if hit and hit[1] == "method":
                return self.method_value(o, c, False, hit[0], dflt.attr, hit[2], dflt)
        return self.eval_class_attr(c, name, dflt)

    def method_value(self, o, cls, exact, c, name, n, node):
        decs = [dotted(d).split(".")[-1] if dotted(d) else "" for d in n.decorator_list]
        key = f"{c.name}.{name}"
        if "property" in decs or "cached_property" in decs:
            if key in self.opaque or self.p.is_abstract(n):
                return T.attr(o, name)
            return self.call(Bound(o, self.make_func(n, None, c.module, c)), [], {}, node)
        if key in self.opaque or ("*." + name) in self.opaque:
            return MBound(o, name)
        if self.p.is_abstract(n):
            return MBound(o, name)
        if not exact and key not in self.inline:
            if any(s is not cls and name in s.methods for s in self.p.subclasses(cls)):
                return MBound(o, name)
        return self.bind_method(o, c, name, n, cls)

    def bind_method(self, o, c, name, n, cls):
        decs = [dotted(d).split(".")[-1] if dotted(d) else "" for d in n.decorator_list]
        if "property" in decs and o is not None:
            return self.call(Bound(o, self.make_func(n, None, c.module, c)), [], {}, n)
        fn = self.make_func(n, None, c.module, c)
        if "staticmethod" in decs:
            return fn
        if "classmethod" in decs:
            return Bound(cls, fn)
        if o is None:
            return fn
        return Bound(o, fn)

    # ---------------------------------------------------------------- subscripts
    def ev_Slice(self, e, fid):
        return SliceV(None if e.lower is None else self.ev(e.lower, fid),
                      None if e.upper is None else self.ev(e.upper, fid),
                      None if e.step is None else self.ev(e.step, fid))

    def ev_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        if isinstance(o, (Lib, ClassInfo)):
            return o          # generic alias such as list[int]
        k = self.ev(e.slice, fid)
        return self.index(o, k, e)

    def index(self, o, k, node):
        if self.is_dict(o):
            return self.dict_get(o, k, node)
        it = self.items(o) if (isinstance(o, tuple) or self.is_list(o)) else None
        if it is not None:
            if isinstance(k, SliceV):
                lo, hi, st = (T.const_of(x) if x is not None else None for x in (k.lo, k.hi, k.st))
                if (k.lo is None or lo is not None) and (k.hi is None or hi is not None) and (k.st is None or st is not None):
                    if any(isinstance(x, Seg) or isinstance(x, Term) and x.op == "seqphi" for x in it):
                        r = sliced(it, lo, hi, st)
                        return self.unk(node, "slice of a built list", o) if r is None else self.new_list(r)
                    sl = slice(*(int(x) if x is not None else None for x in (lo, hi, st)))
                    r = tuple(it[sl])
                    return r if isinstance(o, tuple) else self.new_list(r)
                return self.unk(node, "symbolic slice of a list", o)
            c = T.const_of(k) if not isinstance(k, (tuple, str)) and k is not None else None
            if c is not None and -len(it) <= c < 0 and not any(isinstance(x, Seg) for x in it[int(c):]):
                return it[int(c)]
            if c is not None and not any(isinstance(x, Seg) for x in it):
                if -len(it) <= c < len(it):
                    return it[int(c)]
                return self.unk(node, "index out of range")
            if len(it) == 1 and isinstance(it[0], Seg) and len(it[0].items) == 1:
                x = it[0].items[0]
                i = k if c is None or c >= 0 else T.add(it[0].n, c)
                return T.subst(self.freeze(x), {it[0].idx: i})
            arr = mk("arr", tuple(self.freeze(x) for x in it)) if not any(isinstance(x, Seg) for x in it) else None
            if arr is None:
                hit = self._in_pieces(it, k) if isinstance(k, Term) or c is not None and c >= 0 else None
                return hit[0] if hit else self.unk(node, "index into a built list", k)
            if all(isinstance(x, str) for x in it):
                return mk("elem", arr, self.freeze(k))
            return self.array_index(arr, k, node)
        if isinstance(o, Term):
            if o.op == "at":
                return mk("atidx", o.args[0], self.freeze(k))
            if o.op == "shape":
                c = T.const_of(k) if not isinstance(k, SliceV) else None
                if c == 0:
                    return T.length(o.args[0])
                if c is not None:
                    r = T.rank(o.args[0])
                    if r is not None and c < 0:
                        c = c + r
                        if c == 0:
                            return T.length(o.args[0])
                    return T.dim(o.args[0], int(c))
                return mk("shapeslice", o, self.freeze(k))
            rec = self.st.heap.get(o, {})
            if "#d" in rec:
                return self.dict_get(o, k, node)
            if isinstance(k, str):
                if o.op == "arr" and o.args[0] and all(isinstance(x, Term) and x.op == "dct" and x.args[0] is None
                                                       and find_pair(x.args[1], k) for x in o.args[0]):
                    return mk("arr", tuple(find_pair(x.args[1], k)[0] for x in o.args[0]))
                return mk("elem", o, k)
            return self.array_index(o, k, node)
        if isinstance(o, str):
            c = T.const_of(k) if not isinstance(k, SliceV) else None
            if c is not None:
                return o[int(c)]
            return self.unk(node, "string index")
        if is_num(o):
            return o
        return self.unk(node, "subscript", o, k)

    def dict_get(self, o, k, node, default=None):
        r = self.st.heap[o]
        p = find_pair(r["#d"], k)
        if p is not None:
            return p[0]
        if r["#base"] is not None:
            b = r["#base"]
            if isinstance(b, Term) and b.op == "dmap":
                return T.subst(b.args[1].args[1], {b.args[1].args[0]: self.freeze(k)}) if isinstance(b.args[1], Term) and b.args[1].op == "lam" else b.args[1]
            return mk("elem", b, self.freeze(k))
        if isinstance(k, Term) and r["#d"]:
            # unknown key: one of the entries
            if k.op == "sel":
                return self.select(k.args[0], self.index(o, k.args[1], node), self.index(o, k.args[2], node))
            return self.unk(node, "dictionary lookup with an unknown key", k)
        return self.unk(node, f"missing key {k!r}")

    def array_index(self, x, k, node):
        ks = list(k) if isinstance(k, tuple) else [k]
        return self._aidx(x, ks, node)

    def _aidx(self, x, ks, node):
        while ks and (isinstance(ks[-1], SliceV) and ks[-1].lo is None and ks[-1].hi is None and ks[-1].st is None):
            ks = ks[:-1]
        if ks and ks[-1] is Ellipsis:
            ks = ks[:-1]
        if not ks:
            return x
        k, rest = ks[0], ks[1:]
        if k is Ellipsis:
            r = T.rank(x)
            need = sum(1 for z in rest if z is not None)
            if r is None:
                return mk("ellidx", x, tuple(self.freeze(z) for z in rest))
            return self._aidx(x, [SliceV(None, None, None)] * (r - need) + rest, node)
        if k is None:
            inner = self._aidx(x, rest, node) if rest else x
            v = mk("newax", inner)
            r = T.rank(inner)
            if r is not None:
                T.RANK[v] = r + 1
            d = T.dims(inner)
            if d is not None:
                T.LEN[v] = [1] + list(d)
            return v
        if isinstance(k, SliceV):
            base = self._slice(x, k, node)
            if not rest:
                return base
            v = fresh("i", 0)
            inner = self._aidx(T.elem(base, v), rest, node)
            return T.comp(v, inner, T.length(base))
        if isinstance(k, Term) and k.op == "slicev":
            return self._aidx(x, [SliceV(k.args[0], k.args[1], k.args[2])] + rest, node)
        if isinstance(k, bool):
            return self.unk(node, "boolean index", x)
        k = self._num(k)
        if isinstance(k, Term) and k.op in ("lt0", "le0", "eq0", "not", "and", "or", "all", "any", "isfinite") and \
                T.rank(k) != 0:
            base = mk("maskrows", x, k)
            if T.rank(x) is not None and T.rank(k) is not None:
                T.RANK[base] = T.rank(x) - T.rank(k) + 1
            return self._aidx(base, [SliceV(None, None, None)] + rest, node) if rest else base
        r = T.rank(k) if isinstance(k, Term) else 0
        if isinstance(k, Term) and k.op == "comp" and r is None:
            r = 1
        if r and r >= 1:
            # gather
            v = fresh("i", 0)
            inner = self._aidx(T.elem(x, T.elem(k, v)), rest, node)
            return T.comp(v, inner, T.length(k))
        e = T.elem(x, k)
        if isinstance(e, Term) and e.op == "elem":
            ty = self.typeof(e)
        if not rest:
            return e
        return self._aidx(e, rest, node)

    def _slice(self, x, k, node):
        if k.lo is None and k.hi is None and k.st is None:
            return x
        st = 1 if k.st is None else k.st
        L = T.length(x)
        cs = T.const_of(st)
        if cs is not None and cs < 0:
            if cs == -1 and k.lo is None and k.hi is None:
                return mk("flip", x, 0)
            return self.unk(node, "negative step", x)

        def norm(v, dflt):
            if v is None:
                return dflt
            c = T.const_of(v)
            if c is not None and c < 0:
                return T.add(L, c)
            if isinstance(v, Term) and v.op == "max":
                # x[max(len(x) - h, 0):] is x[-h:]
                rest = [a for a in v.args[0] if T.const_of(a) != 0]
                if len(rest) == 1:
                    p = T.to_poly(T.sub(L, rest[0]))
                    if len(p) == 1 and all(cc > 0 for cc in p.values()):
                        return rest[0]
            if isinstance(v, Term):
                p = T.to_poly(v)
                if len(p) == 1 and all(cc < 0 for cc in p.values()):
                    return T.add(L, v)
            return v
        lo, hi = norm(k.lo, 0), norm(k.hi, L)
        if k.hi is not None and isinstance(hi, Term) and isinstance(lo, Term):
            # the end may run past the array in the last piece of a blocked loop
            idxv = {v for v in T.free_vars(lo) if T.show(v).startswith("i#")}
            if idxv and (T.free_vars(hi) & idxv) and not (isinstance(L, Term) and T.free_vars(L) & idxv) and hi.op != "min":
                hi = T.min_(hi, L)
        n = T.sub(hi, lo)
        if not (cs == 1):
            n = T.ceildiv(n, st)
        return T.slice_(x, lo, st, n)

    # ---------------------------------------------------------------- comprehensions & strings
    def _comp_run(self, gens, fid, leaf):
        f2 = self.new_frame(fid, self.st.frames[fid][2][0], None)

        def go(gi):
            if gi == len(gens):
                return [leaf(f2)]
            g = gens[gi]
            v = self.ev(g.iter, f2 if gi else fid)
            seq = self.iterate(v, g.iter)
            if seq is None:
                return [Seg(fresh("i", 0), (self.unk(g.iter, "comprehension"),), T.length(v) if isinstance(v, Term) else 0)]
            out = []
            for e in seq:
                if e[0] == "item":
                    self.assign(g.target, e[1], f2)
                    ok = True
                    for cnd in g.ifs:
                        c = self.truth(self.ev(cnd, f2))
                        if c is False:
                            ok = False
                        elif c is not True:
                            return [Seg(fresh("i", 0), (self.unk(cnd, "filtered comprehension"),), fresh("n", 0))]
                    if ok:
                        out.extend(go(gi + 1))
                else:
                    i = fresh("i", 0)
                    ints.counter(i, e[1])
                    if isinstance(e[2], Seg):
                        xs = [T.subst(self.freeze(x), {e[2].idx: i}) if isinstance(x, (Term, tuple)) else x
                              for x in e[2].items]
                    else:
                        xs = [e[2](i)]
                    acc = []
                    for x in xs:
                        self.assign(g.target, x, f2)
                        if g.ifs:
                            cs = [self.truth(self.ev(c, f2)) for c in g.ifs]
                            if not all(c is True for c in cs):
                                return [Seg(i, (self.unk(g.iter, "filtered comprehension"),), fresh("n", 0))]
                        self.ctx.append("loop")
                        acc.extend(go(gi + 1))
                        self.ctx.pop()
                    out.append(Seg(i, tuple(acc), e[1]))
            return out
        return go(0)

    def ev_ListComp(self, e, fid):
        return self.new_list(self._comp_run(e.generators, fid, lambda f: self.ev(e.elt, f)))

    def ev_GeneratorExp(self, e, fid):
        return self.ev_ListComp(e, fid)

    def ev_SetComp(self, e, fid):
        return mk("set", tuple(self.freeze(x) for x in self._comp_run(e.generators, fid, lambda f: self.ev(e.elt, f))
                               if not isinstance(x, Seg)))

    def dict_map(self, e, fid):
        """{k: f(k, v) for k, v in D.items()} over an unknown mapping D"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        d = self.ev(e.generators[0].iter, fid)

        if not (isinstance(d, Term) and d.op in ("ditems", "dkeys")):
            return None
        D = d.args[0]
        f2 = self.new_frame(fid, self.st.frames[fid][2][0], None)
        k = fresh("k", 0)
        self.assign(e.generators[0].target, (k, mk("elem", D, k)) if d.op == "ditems" else k, f2)
        self.ctx.append("loop")
        kk, vv = self.ev(e.key, f2), self.freeze(self.ev(e.value, f2))
        self.ctx.pop()
        if kk is not k:
            return None
        if vv is mk("elem", D, k):
            return self.new_dict((), D)
        return self.new_dict((), mk("dmap", D, T.lam(k, vv) if isinstance(vv, Term) else vv))

    def ev_DictComp(self, e, fid):
        t = self.dict_map(e, fid)
        if t is not None:
            return t
        r = self._comp_run(e.generators, fid, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        return self.new_dict(tuple(r))

    def fstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Term) and p.op == "str":
                out.extend(p.args[0])
            else:
                out.append(self.freeze(p))
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            elif p != "":
                merged.append(p)
        if all(isinstance(p, str) for p in merged):
            return "".join(merged)
        return mk("str", tuple(merged))

    def ev_JoinedStr(self, e, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fid)
                if isinstance(x, str):
                    parts.append(x)
                elif isinstance(x, (int,)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    parts.append(mk("fmt", self.freeze(x)) if not _isstr(x) else x)
        return self.fstr(tuple(parts))

    def ev_Starred(self, e, fid):
        return self.ev(e.value, fid)

    def ev_Yield(self, e, fid):
        raise Unsupported(f"generator @ {self.site(e)}")


def _isstr(v):
    return isinstance(v, Term) and v.op in ("str", "fmt")


def _is_affine_inc(d):
    return all(len(m) >= 0 for m in T.to_poly(d))


def flatten_tree(v):
    """(leaves, rebuild) for nested lists/tuples"""
    if isinstance(v, (tuple, list)):
        parts = [flatten_tree(x) for x in v]
        n = [len(p[0]) for p in parts]
        leaves = [l for p in parts for l in p[0]]
        typ = type(v)

        def rb(ls):
            out, k = [], 0
            for p, c in zip(parts, n):
                out.append(p[1](ls[k:k + c]))
                k += c
            return like(v, out) if typ is Record else typ(out)
        return leaves, rb
    return [v], lambda ls: ls[0]


def find_pair(pairs, k):
    for p in reversed(pairs):
        if isinstance(p, Seg):
            return (mk("unk", "dictionary filled in a loop", k if isinstance(k, Term) else repr(k)),)
        if same(p[0], k):
            return (p[1],)
    return None


def _load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


LIB_CONST = {}
for _m in ("jnp.", "np.", "math.", "jax.numpy."):
    LIB_CONST[_m + "inf"] = T.INF
    LIB_CONST[_m + "nan"] = T.NAN
    LIB_CONST[_m + "pi"] = mk("pi")
    LIB_CONST[_m + "newaxis"] = None
    LIB_CONST[_m + "e"] = mk("euler")
for _t in (T.INF, T.NAN, mk("pi"), mk("euler")):
    T.RANK[_t] = 0


def lib_value(name):
    return LIB_CONST[name] if name in LIB_CONST else Lib(name)


BUILTINS = {"len", "range", "zip", "enumerate", "isinstance", "str", "int", "float", "bool", "list", "tuple", "dict",
            "min", "max", "sum", "abs", "print", "hasattr", "getattr", "setattr", "super", "sorted", "any", "all",
            "slice", "reversed", "map", "type", "repr", "ValueError", "TypeError", "NotImplementedError", "KeyError",
            "RuntimeError", "AssertionError", "Exception", "object", "set", "frozenset", "id", "round", "iter", "next",
            "callable", "property", "staticmethod", "classmethod", "filter", "open", "vars", "IndexError",
            "AttributeError", "pow", "divmod", "issubclass", "format", "hash", "input", "globals", "locals",
            "StopIteration", "ZeroDivisionError", "FileNotFoundError", "OSError", "IOError", "Warning", "UserWarning",
            "delattr", "__import__", "complex", "bytes", "eval", "exec"}

ALIASES = [
    ("jax.numpy.", "jnp."), ("numpy.", "np."), ("equinox.", "eqx."),
    ("jax.tree_util.tree_map", "jax.tree.map"), ("jax.tree_map", "jax.tree.map"),
    ("jax._src.", "jax."),
]


def canon(d):
    if d == "jax.numpy":
        return "jnp"
    if d == "equinox":
        return "eqx"
    if d == "numpy":
        return "np"
    for a, b in ALIASES:
        if d.startswith(a):
            d = b + d[len(a):]
    return d
