"""Models of the library functions the package uses (jax, equinox, optax, ...).

Each handler maps argument terms to a result term.  A function without a handler
yields an `unk` term, which a check reports as "analysis incomplete" when the
verdict depends on it; it is never silently treated as equal to anything.
"""
import ast
from fractions import Fraction

from . import terms as T
from . import ints
from .terms import Term, mk, fresh, is_num, same
from .project import ClassInfo
from . import interp as I_

H = {}


def h(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


class Args:
    def __init__(self, I, args, kwargs, names, node):
        self.d = {}
        self.I, self.node = I, node
        names = names.split()
        for n, v in zip(names, args):
            self.d[n] = v
        self.rest = list(args[len(names):])
        self.extra = {}
        for k, v in kwargs.items():
            if k in names:
                self.d[k] = v
            else:
                self.extra[k] = v

    def __call__(self, n, default=None):
        return self.d.get(n, default)

    def has(self, n):
        return n in self.d


def arr(I, v):
    """sequence -> array term"""
    if isinstance(v, range):
        v = tuple(v)
    if isinstance(v, tuple) or I.is_list(v):
        it = I.items(v)
        if any(isinstance(x, I_.Seg) for x in it):
            if len(it) == 1 and len(it[0].items) == 1:
                return T.comp(it[0].idx, arr(I, it[0].items[0]), it[0].n)
            if all(len(x.items) == 1 for x in it if isinstance(x, I_.Seg)):
                parts = []
                for x in it:
                    if isinstance(x, I_.Seg):
                        parts.append(T.comp(x.idx, arr(I, x.items[0]), x.n))
                    elif parts and parts[-1].op == "arr":
                        parts[-1] = mk("arr", parts[-1].args[0] + (arr(I, x),))
                    else:
                        parts.append(mk("arr", (arr(I, x),)))
                return T.concat(parts)
            return I.freeze(v) if not isinstance(v, tuple) else mk("seq", tuple(I.freeze(x) for x in it))
        return mk("arr", tuple(arr(I, x) for x in it))
    if isinstance(v, (Term, bool, int, float, Fraction, str)) or v is None:
        return v
    return I.freeze(v)


def shp(I, v):
    """shape argument -> tuple of dimensions, or a term"""
    if isinstance(v, tuple) or I.is_list(v):
        return tuple(I.freeze(x) for x in I.items(v))
    if v is None:
        return ()
    if isinstance(v, Term) and v.op in ("shape", "shapeslice"):
        d = T.dims(v.args[0]) if v.op == "shape" else None
        return tuple(d) if d is not None else v
    if isinstance(v, Term) and v.op in ("lst", "tup", "arr"):
        return tuple(v.args[0])
    return (v,)


def axis_of(x, axis, node=None):
    """normalise a negative axis when the rank is known"""
    c = T.const_of(axis) if axis is not None and not isinstance(axis, tuple) else None
    if c is None:
        return axis
    c = int(c)
    if c < 0:
        r = T.rank(x)
        if r is not None:
            c += r
    return c


def dtype_name(I, d):
    if d is None:
        return None
    if isinstance(d, I_.Lib):
        n = d.name.split(".")[-1]
        return {"bool_": "bool", "int": "int", "float": "float"}.get(n, n)
    if isinstance(d, str):
        return d
    return I.freeze(d)


FLOATS = {"float", "float16", "float32", "float64", "bfloat16", "double", "single", "float_"}


def cast(I, x, d):
    n = dtype_name(I, d)
    if n is None:
        return x
    if isinstance(x, bool) or is_num(x):
        if n == "bool":
            return bool(x)
        if n in FLOATS:
            return x if not isinstance(x, bool) else int(x)
        if n in ("int", "int32", "int64"):
            return int(x)
        return x
    if isinstance(n, str) and n in FLOATS and isinstance(x, Term) and not isbool(x):
        I.floats.add(x)
        return x
    if n == "bool" and isbool(x):
        return x
    if n == "bool" and isinstance(x, Term) and x.op == "full":
        c = T.const_of(x.args[1])
        if c is not None:
            return mk("full", x.args[0], bool(c))
    if n == "bool" and isinstance(x, Term) and x.op == "concat":
        return T.concat([cast(I, p, d) for p in x.args[0]])
    if n == "bool" and isinstance(x, Term) and x.op == "arr":
        return mk("arr", tuple(cast(I, p, d) for p in x.args[0]))
    return T.cast(x, n)


def isbool(x):
    return isinstance(x, bool) or (isinstance(x, Term) and (
        x.op in ("lt0", "le0", "eq0", "not", "and", "or", "isfinite", "isnan", "isinf", "any", "all", "eqv", "isnone")
        or (x.op == "cast" and x.args[1] == "bool")
        or (x.op == "full" and isinstance(x.args[1], bool))
        or (x.op == "sel" and isbool(x.args[1]) and isbool(x.args[2]))
        or (x.op in ("comp",) and isbool(x.args[1]))
        or (x.op in ("slice", "flip", "elem") and isinstance(x.args[0], Term) and isbool(x.args[0]))))


def tree_map(I, f, v):
    """apply f to every array leaf of a value built from tuples, lists and dicts"""
    if isinstance(v, tuple):
        return I_.like(v, [tree_map(I, f, x) for x in v])
    if I.is_list(v):
        return I.new_list(tuple(tree_map(I, f, x) for x in I.items(v)))
    if I.is_dict(v):
        r = I.st.heap[v]
        return I.new_dict(tuple((k, tree_map(I, f, x)) for k, x in r["#d"]), r["#base"])
    return f(v)


def pyseq(I, v):
    return isinstance(v, tuple) or I.is_list(v)


def call_lib(I, name, args, kwargs, node):
    f = H.get(name)
    if f is None and name.startswith("np."):
        f = H.get("jnp." + name[3:])
    if f is None and name.startswith("jax.scipy."):
        f = H.get("scipy." + name[10:])
    if f is None:
        last = name.split(".")[-1]
        if name.startswith("jax.lax."):
            f = H.get("jnp." + last)
    if f is None:
        return I.unk(node, f"library function {name} is not modelled", *args)
    r = f(I, args, kwargs, node)
    return r


# ------------------------------------------------------------------ builtins

@h("builtins.noop", "builtins.print", "jax.debug.print", "builtins.iter_noop", "jax.block_until_ready",
   "jax.debug.callback", "warnings.warn")
def _noop(I, a, k, n):
    return None


@h("builtins.len")
def _len(I, a, k, n):
    v = a[0]
    it = I.items(v)
    if it is not None:
        if not any(isinstance(x, I_.Seg) for x in it):
            return len(it)
        tot = []
        for x in it:
            tot.append(T.mul(x.n, len(x.items)) if isinstance(x, I_.Seg) else 1)
        return T.add(*tot)
    if isinstance(v, str):
        return len(v)
    if I.is_dict(v):
        r = I.st.heap[v]
        if r["#base"] is None:
            return len(r["#d"])
    if isinstance(v, Term) and v.op == "arange":
        return v.args[1]
    if isinstance(v, Term):
        ty = I.typeof(v)
        if ty and ty[0].lookup("__len__"):
            return I.call(I.get_attr(v, "__len__", n), [], {}, n)
        return T.length(v)
    return I.unk(n, "len", v)


@h("builtins.range", "tqdm.trange", "tqdm.auto.trange")
def _range(I, a, k, n):
    a = list(a)
    if len(a) == 1 or len(a) > 3:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    cnt = T.ceildiv(T.sub(hi, lo), st) if T.const_of(st) != 1 else T.sub(hi, lo)
    return mk("arange", lo, cnt, st)


@h("tqdm.tqdm", "tqdm.auto.tqdm", "builtins.iter")
def _tqdm(I, a, k, n):
    return a[0]


@h("builtins.next")
def _next(I, a, k, n):
    return I.index(a[0], 0, n)


def transpose(I, rows):
    """zip(*rows) where rows may contain runs of rows of one width"""
    out = None
    for x in rows:
        its = x.items if isinstance(x, I_.Seg) else (x,)
        vs = [I.items(y) for y in its]
        if any(v is None or any(isinstance(z, I_.Seg) for z in v) for v in vs) or len({len(v) for v in vs}) != 1:
            return None
        w = len(vs[0])
        if out is None:
            out = [[] for _ in range(w)]
        if len(out) != w:
            return None
        for j in range(w):
            if isinstance(x, I_.Seg):
                out[j].append(I_.Seg(x.idx, tuple(v[j] for v in vs), x.n))
            else:
                out[j].append(vs[0][j])
    return I.new_list(tuple(tuple(c) for c in out)) if out is not None else I.new_list(())


@h("builtins.zip")
def _zip(I, a, k, n):
    if any(isinstance(x, I_.Seg) for x in a):
        r = transpose(I, a)
        return r if r is not None else I.unk(n, "zip of runs")
    if all(pyseq(I, x) and not any(isinstance(y, I_.Seg) for y in I.items(x)) for x in a):
        return I.new_list(tuple(zip(*[I.items(x) for x in a])))
    return mk("zip", tuple(a))


@h("builtins.enumerate")
def _enum(I, a, k, n):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if pyseq(I, a[0]) and not any(isinstance(y, I_.Seg) for y in I.items(a[0])):
        return I.new_list(tuple((T.add(st, i), x) for i, x in enumerate(I.items(a[0]))))
    return mk("enum", a[0], st)


PYTYPES = {"str": str, "int": int, "float": float, "bool": bool, "tuple": tuple}


@h("builtins.isinstance")
def _isinstance(I, a, k, n):
    v, c = a
    cs = I.items(c) if pyseq(I, c) else (c,)
    out = [_isinst1(I, v, x, n) for x in cs]
    return T.or_(*out)


def _isinst1(I, v, c, n):
    if isinstance(c, ClassInfo):
        ty = I.typeof(v) if isinstance(v, Term) else None
        if ty:
            if ty[0].is_sub(c):
                return True
            if ty[1] or not c.is_sub(ty[0]):
                if ty[1]:
                    return False
                if not any(s.is_sub(c) for s in I.p.subclasses(ty[0])):
                    return False
        elif isinstance(v, (str, int, float, bool, tuple)) or v is None or I.is_list(v) or I.is_dict(v):
            return False
        return mk("isinstance", I.freeze(v), c.qual)
    if isinstance(c, I_.Lib):
        nm = c.name.split(".")[-1]
        if nm == "list" and isinstance(v, Term):
            if I.is_list(v):
                return True
            if I.is_dict(v) or I.typeof(v):
                return False
        if nm == "dict" and isinstance(v, Term):
            if I.is_dict(v):
                return True
        if nm in PYTYPES and not isinstance(v, Term):
            return isinstance(v, PYTYPES[nm]) and not (nm == "int" and False)
        if nm == "str" and I_._isstr(v):
            return True
        if nm in PYTYPES and (I.is_list(v) or I.is_dict(v)):
            return False
        if nm in ("Array", "ndarray") and not isinstance(v, Term):
            return False
        return mk("isinstance", I.freeze(v), c.name)
    return mk("isinstance", I.freeze(v), I.freeze(c))


@h("builtins.str", "builtins.repr", "builtins.format")
def _str(I, a, k, n):
    v = a[0] if a else ""
    if isinstance(v, str):
        return v
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, Term) and v.op in ("str", "fmt"):
        return v
    return mk("fmt", I.freeze(v))


@h("builtins.int")
def _int(I, a, k, n):
    v = a[0]
    c = T.const_of(v) if not isinstance(v, str) and v is not None and not isinstance(v, tuple) else None
    if c is not None:
        return int(c)
    if isinstance(v, Term) and v.op in ("ceildiv", "floordiv", "len", "ceil", "floor"):
        return v
    if isinstance(v, Term):
        q = _ratio(v)
        if q:
            return T.floordiv(*q)
        if v.op == "poly":
            return mk("int", v)
        return v if v.op in ("var", "attr", "dim", "bv") else mk("int", v)
    return I.unk(n, "int()", v)


def _ratio(v):
    """a/b -> (a, b) when v is one monomial with a denominator (or a sum with a common one)"""
    p = T.to_poly(v)
    dens = None
    for m, c in p.items():
        d = tuple((a, -k) for a, k in m if k < 0)
        d = (d, c.denominator)
        if dens is None:
            dens = d
        elif dens[0] != d[0]:
            return None
    if dens is None:
        return None
    import math
    lcm = 1
    for c in p.values():
        lcm = lcm * c.denominator // math.gcd(lcm, c.denominator)
    if not dens[0] and lcm == 1:
        return None
    den = T.mul(lcm, *[T.power(a, k) for a, k in dens[0]])
    return T.mul(v, den), den


@h("math.ceil", "jnp.ceil")
def _ceil(I, a, k, n):
    c = T.const_of(a[0])
    if c is not None:
        return int(-((-c) // 1))
    q = _ratio(a[0])
    if q:
        return T.ceildiv(*q)
    return mk("ceil", a[0])


@h("math.floor", "jnp.floor")
def _floor(I, a, k, n):
    c = T.const_of(a[0])
    if c is not None:
        return int(c // 1)
    q = _ratio(a[0])
    if q:
        return T.floordiv(*q)
    return mk("floor", a[0])


@h("builtins.float")
def _float(I, a, k, n):
    if isinstance(a[0], str):
        if a[0].strip("+-").lower() in ("inf", "infinity"):
            return T.neg(T.INF) if a[0].startswith("-") else T.INF
        if a[0].lower() == "nan":
            return T.NAN
        return I.unk(n, "float of a string")
    return a[0]


@h("builtins.bool")
def _bool(I, a, k, n):
    t = I.truth(a[0]) if a else False
    return t


@h("builtins.list", "builtins.tuple")
def _list(I, a, k, n):
    if not a:
        return I.new_list(())
    v = a[0]
    it = I.items(v)
    if it is not None:
        return I.new_list(it)
    seq = I.iterate(v, n)
    if seq is not None and all(p[0] == "item" for p in seq):
        return I.new_list(tuple(p[1] for p in seq))
    if seq is not None:
        out = []
        for p in seq:
            if p[0] == "item":
                out.append(p[1])
            elif isinstance(p[2], I_.Seg):
                out.append(p[2])
            else:
                i = fresh("i", 0)
                out.append(I_.Seg(i, (p[2](i),), p[1]))
        return I.new_list(tuple(out))
    return I.unk(n, "list()", v)


def _tuple(I, a, k, n):
    r = _list(I, a, k, n)
    it = I.items(r)
    return tuple(it) if it is not None and not any(isinstance(x, I_.Seg) for x in it) else r


H["builtins.tuple"] = _tuple


@h("builtins.dict")
def _dict(I, a, k, n):
    if a:
        v = a[0]
        if I.is_dict(v):
            r = I.st.heap[v]
            d = list(r["#d"])
            base = r["#base"]
        elif pyseq(I, v):
            d, base = [tuple(I.items(x)) for x in I.items(v)], None
        elif isinstance(v, Term) and v.op in ("zip", "enum", "map") or I.is_list(v):
            d, base = I.pairs_of(v, n), None
            if d is None:
                return I.unk(n, "dict()", v)
        else:
            d, base = [], v
    else:
        d, base = [], None
    for kk, vv in k.items():
        d = [p for p in d if isinstance(p, I_.Seg) or p[0] != kk] + [(kk, vv)]
    return I.new_dict(tuple(d), base)


@h("builtins.min")
def _min(I, a, k, n):
    xs = list(I.items(a[0])) if len(a) == 1 and I.items(a[0]) is not None else list(a)
    return T.min_(*xs)


@h("builtins.max")
def _max(I, a, k, n):
    xs = list(I.items(a[0])) if len(a) == 1 and I.items(a[0]) is not None else list(a)
    return T.max_(*xs)


@h("builtins.sum")
def _pysum(I, a, k, n):
    it = I.items(a[0])
    if it is not None and not any(isinstance(x, I_.Seg) for x in it):
        return T.add(a[1] if len(a) > 1 else 0, *it)
    return T.add(a[1] if len(a) > 1 else 0, T.sum_(arr(I, a[0]), 0))


@h("builtins.abs")
def _abs(I, a, k, n):
    c = T.const_of(a[0])
    if c is not None:
        c = abs(c)
        return int(c) if c.denominator == 1 else c
    return T.unary("abs", a[0])


@h("builtins.pow")
def _pow(I, a, k, n):
    return T.power(a[0], a[1])


@h("builtins.round")
def _round(I, a, k, n):
    return mk("round", I.freeze(a[0]))


@h("builtins.hasattr")
def _hasattr(I, a, k, n):
    o, nm = a
    if isinstance(o, Term):
        if nm in I.st.heap.get(o, {}):
            return True
        ty = I.typeof(o)
        if ty and isinstance(nm, str):
            if ty[0].lookup(nm):
                return True
            if ty[1] and not I.is_list(o):
                return False
    return mk("hasattr", I.freeze(o), I.freeze(nm))


@h("builtins.getattr")
def _getattr(I, a, k, n):
    if isinstance(a[1], str):
        if len(a) > 2:
            c = _hasattr(I, a[:2], {}, n)
            if c is False:
                return a[2]
        return I.get_attr(a[0], a[1], n)
    return I.unk(n, "getattr with a computed name", *a)


@h("builtins.setattr")
def _setattr(I, a, k, n):
    if isinstance(a[1], str):
        I.set_attr(a[0], a[1], a[2], n)
        return None
    I.emit("setattr", n, obj=a[0], name=I.freeze(a[1]), value=a[2])
    return None


@h("builtins.slice")
def _slice(I, a, k, n):
    if len(a) == 1:
        return I_.SliceV(None, a[0], None)
    return I_.SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@h("builtins.reversed")
def _reversed(I, a, k, n):
    it = I.items(a[0])
    if it is not None and I_.plain(it) and not any(isinstance(x, Term) and x.op == "seqphi" for x in it):
        return I.new_list(I_.turned(it))
    v = a[0]
    if isinstance(v, Term) and v.op == "arange":
        lo, cnt, st = v.args
        return mk("arange", T.add(lo, T.mul(T.sub(cnt, 1), st)), cnt, T.neg(st))
    if isinstance(v, Term):
        return mk("flip", v, 0)
    return I.unk(n, "reversed", v)


@h("builtins.map")
def _map(I, a, k, n):
    seqs = [I.iterate(x, n) for x in a[1:]]
    if all(s is not None and all(p[0] == "item" for p in s) for s in seqs):
        return I.new_list(tuple(I.call(a[0], [p[1] for p in row], {}, n) for row in zip(*seqs)))
    if all(s is not None and len(s) == 1 and s[0][0] == "run" for s in seqs):
        i = fresh("i", 0)
        return I.new_list((I_.Seg(i, (I.call(a[0], [I._runelem(s[0], i) for s in seqs], {}, n),), seqs[0][0][1]),))
    return I.unk(n, "map", *a[1:])


@h("builtins.any", "builtins.all")
def _anyall(I, a, k, n):
    return I.unk(n, "any/all", *a)


def _pyany(I, a, k, n):
    it = I.items(a[0])
    if it is not None and not any(isinstance(x, I_.Seg) for x in it):
        return T.or_(*[I.truth(x) for x in it])
    return mk("any", arr(I, a[0]), None)


def _pyall(I, a, k, n):
    it = I.items(a[0])
    if it is not None and not any(isinstance(x, I_.Seg) for x in it):
        return T.and_(*[I.truth(x) for x in it])
    return mk("all", arr(I, a[0]), None)


H["builtins.any"], H["builtins.all"] = _pyany, _pyall


@h("builtins.type")
def _type(I, a, k, n):
    v = a[0]
    ty = I.typeof(v) if isinstance(v, Term) else None
    if ty and ty[1]:
        return ty[0]
    return mk("classof", I.freeze(v))


@h("builtins.id", "builtins.hash")
def _id(I, a, k, n):
    return mk("pyid", I.freeze(a[0]))


@h("builtins.callable")
def _callable(I, a, k, n):
    return True if isinstance(a[0], I_.CALLABLES) else mk("callable", I.freeze(a[0]))


@h("builtins.sorted")
def _sorted(I, a, k, n):
    return mk("sorted", I.freeze(a[0]))


@h("builtins.set", "builtins.frozenset")
def _set(I, a, k, n):
    if a and I.items(a[0]) is None:
        return mk("uniq", I.freeze(a[0]))
    return mk("set", tuple(I.freeze(x) for x in I.items(a[0]))) if a else mk("set", ())


@h("builtins.dict.fromkeys")
def _fromkeys(I, a, k, n):
    its = I.items(a[0])
    v = a[1] if len(a) > 1 else None
    if its is not None and not any(isinstance(x, I_.Seg) for x in its):
        pairs = []
        for x in its:
            if not any(same(x, y) for y, _ in pairs):
                pairs.append((x, v))
        if all(isinstance(x, str) for x, _ in pairs):
            return I.new_dict(tuple(pairs))
    return mk("uniq", I.freeze(a[0]))


@h("builtins.open")
def _open(I, a, k, n):
    return mk("openf", I.freeze(a[0]))


def file_of(x):
    """the path behind a file object, when opening a path that has a suffix makes no difference"""
    x = x if not (isinstance(x, Term) and x.op == "openf") else (
        x.args[0] if isinstance(x.args[0], Term) and x.args[0].op == "str" and isinstance(x.args[0].args[0][-1], str)
        and "." in x.args[0].args[0][-1] else x)
    return x


@h("builtins.vars")
def _vars(I, a, k, n):
    return mk("attr", I.freeze(a[0]), "__dict__")


for _e in ("ValueError TypeError NotImplementedError KeyError RuntimeError AssertionError Exception IndexError "
           "AttributeError").split():
    H["builtins." + _e] = lambda I, a, k, n, _e=_e: mk("excobj", _e)


@h("builtins.object.__new__")
def _objnew(I, a, k, n):
    if len(a) == 1 and isinstance(a[0], ClassInfo):
        return I.new(a[0])
    return I.unk(n, "object.__new__")


@h("builtins.object")
def _object(I, a, k, n):
    return fresh("obj")


@h("builtins.divmod")
def _divmod(I, a, k, n):
    q = T.floordiv(a[0], a[1])
    return (q, T.sub(a[0], T.mul(q, a[1])))


# ------------------------------------------------------------------ functools / typing

@h("functools.partial", "jax.tree_util.Partial", "equinox.Partial", "eqx.Partial")
def _partial(I, a, k, n):
    f = a[0]
    if isinstance(f, I_.Lib) and f.name in ("jax.vmap", "jax.jit", "eqx.filter_jit", "eqx.filter_vmap", "jax.grad",
                                           "jax.value_and_grad") and len(a) == 1:
        return I_.PyFn(lambda I2, aa, kk, nn: call_lib(I2, f.name, aa, {**k, **kk}, nn), f.name)
    return I_.Part(f, a[1:], k)


@h("functools.wraps", "functools.lru_cache", "functools.cache")
def _wraps(I, a, k, n):
    if len(a) == 1 and isinstance(a[0], I_.CALLABLES) and not k:
        return a[0]
    return I_.PyFn(lambda I2, aa, kk, nn: aa[0], "decorator")


@h("functools.reduce")
def _reduce(I, a, k, n):
    seq = I.iterate(a[1], n)
    if seq is None or not all(p[0] == "item" for p in seq):
        return I.unk(n, "reduce", a[1])
    xs = [p[1] for p in seq]
    acc = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        acc = I.call(a[0], [acc, x], {}, n)
    return acc


@h("operator.getitem")
def _getitem(I, a, k, n):
    return I.index(a[0], a[1], n)


@h("typing.cast")
def _tcast(I, a, k, n):
    return a[1]


@h("copy.copy", "copy.deepcopy")
def _copy(I, a, k, n):
    v = a[0]
    if I.is_list(v):
        return I.new_list(I.items(v))
    if I.is_dict(v):
        r = I.st.heap[v]
        return I.new_dict(r["#d"], r["#base"])
    return v


# ------------------------------------------------------------------ files

@h("np.savez", "np.savez_compressed", "np.save", "jnp.savez", "jnp.save")
def _savez(I, a, k, n):
    a = list(a) + ([k.pop("file")] if "file" in k and not a else [])
    I.emit("save", n, path=I.freeze(a[0]), args=tuple(I.freeze(x) for x in a[1:]),
           fields=tuple((kk, I.freeze(v)) for kk, v in k.items()))
    return None


@h("np.load", "jnp.load")
def _load(I, a, k, n):
    return mk("npload", I.freeze(a[0]))


@h("json.dumps")
def _dumps(I, a, k, n):
    return mk("jsondumps", I.freeze(a[0]))


@h("json.loads")
def _loads(I, a, k, n):
    x = I.freeze(a[0])
    if isinstance(x, Term) and x.op == "jsondumps":
        return x.args[0]
    return mk("jsonloads", x)


@h("eqx.tree_serialise_leaves")
def _ser(I, a, k, n):
    a = list(a) + [k.pop(x) for x in ("path_or_file", "pytree")[len(a):] if x in k]
    x = I.freeze(a[1])
    if len(a) > 2 or k:
        x = mk("filtered", x, tuple(I.freeze(v) for v in a[2:]), tuple((q, I.freeze(v)) for q, v in sorted(k.items())))
    I.emit("save", n, path=file_of(I.freeze(a[0])), args=(x,), fields=())
    return None


@h("eqx.tree_deserialise_leaves")
def _deser(I, a, k, n):
    a = list(a) + [k.pop(x) for x in ("path_or_file", "like")[len(a):] if x in k]
    if len(a) > 2 or k:
        return mk("deserf", I.freeze(a[0]), I.freeze(a[1]), tuple(I.freeze(v) for v in a[2:]), tuple((q, I.freeze(v)) for q, v in sorted(k.items())))
    t = mk("deser", file_of(I.freeze(a[0])), I.freeze(a[1]))
    ty = I.typeof(a[1])
    if ty:
        I_.TYPES[t] = ty
    return t


# ------------------------------------------------------------------ jnp: constructors

@h("jnp.array", "jnp.asarray", "np.asarray", "jax.device_put")
def _array(I, a, k, n):
    A = Args(I, a, k, "object dtype", n)
    x = arr(I, A("object") if A.has("object") else a[0])
    d = k.get("dtype", A("dtype"))
    return cast(I, x, d) if d is not None else x


for _d in "float16 float32 float64 bfloat16 float_ int32 int64 int8 int16 uint8 uint32 bool_".split():
    H["jnp." + _d] = lambda I, a, k, n, _d=_d: cast(I, arr(I, a[0]), {"bool_": "bool"}.get(_d, _d))


def floating(I, t, dtype):
    """remember arrays made without a dtype, which are floats although their constant looks like an integer"""
    if isinstance(t, Term):
        (I.floats if dtype is None else I.others).add(t)
    return t


@h("jnp.zeros", "jnp.empty")
def _zeros(I, a, k, n):
    return floating(I, _full(I, (a[0] if a else k["shape"], 0) + tuple(a[1:]), k, n), k.get("dtype", a[1] if len(a) > 1 else None))


@h("jnp.ones")
def _ones(I, a, k, n):
    return floating(I, _full(I, (a[0] if a else k["shape"], 1) + tuple(a[1:]), k, n), k.get("dtype", a[1] if len(a) > 1 else None))


@h("jnp.full")
def _filled(I, a, k, n):
    t = _full(I, a, k, n)
    if isinstance(t, Term):
        I.others.add(t)
    return t


def _full(I, a, k, n):
    A = Args(I, a, k, "shape fill_value dtype", n)
    s = shp(I, A("shape"))
    v = A("fill_value")
    t = cast(I, mk("full", s, v), A("dtype")) if A("dtype") is not None else mk("full", s, v)
    if isinstance(s, tuple) and len(s) == 0:
        return v
    if isinstance(s, Term) and T.rank(s.args[0]) is not None and s.op == "shape":
        T.RANK[t] = T.rank(s.args[0])
    return t


def _like(val):
    def f(I, a, k, n):
        x = a[0]
        v = val if val is not None else a[1]
        d = T.dims(x) if isinstance(x, Term) else None
        if is_num(x) or T.rank(x) == 0:
            return v
        t = mk("full", tuple(d) if d is not None else mk("shape", x), v)
        if T.rank(x) is not None:
            T.RANK[t] = T.rank(x)
        return t
    return f


H["jnp.zeros_like"], H["jnp.ones_like"], H["jnp.full_like"], H["jnp.empty_like"] = _like(0), _like(1), _like(None), _like(0)


@h("jnp.eye", "jnp.identity")
def _eye(I, a, k, n):
    t = mk("eye", I.freeze(a[0]))
    T.RANK[t] = 2
    T.LEN[t] = [a[0], a[0]]
    return t


@h("jnp.arange")
def _arange(I, a, k, n):
    return _range(I, a[:3], {}, n)


@h("jnp.linspace")
def _linspace(I, a, k, n):
    A = Args(I, a, k, "start stop num endpoint", n)
    cnt = A("num", 50)
    v = fresh("i", 0)
    end = A("endpoint", True)
    den = T.sub(cnt, 1) if end is True else cnt
    t = T.comp(v, T.add(A("start"), T.mul(v, T.div(T.sub(A("stop"), A("start")), den))), cnt)
    return t


# ------------------------------------------------------------------ jnp: elementwise

def _un(f):
    def g(I, a, k, n):
        x = arr(I, a[0])
        if not isinstance(x, Term) and not is_num(x) and not isinstance(x, bool):
            return I.unk(n, "elementwise", x)
        return f(x)
    return g


for _n, _f in {"exp": T.exp, "log": T.log, "sqrt": lambda x: T.power(x, Fraction(1, 2)),
               "square": lambda x: T.power(x, 2), "negative": T.neg,
               "reciprocal": lambda x: T.power(x, -1),
               "log1p": lambda x: T.log(T.add(1, x)), "expm1": lambda x: T.sub(T.exp(x), 1),
               "log2": lambda x: T.div(T.log(x), T.log(2)),
               "isfinite": lambda x: mk("isfinite", x), "isnan": lambda x: mk("isnan", x),
               "isinf": lambda x: mk("isinf", x),
               "logical_not": lambda x: T.not_(x), "invert": lambda x: T.not_(x),
               "positive": lambda x: x, "real": lambda x: x}.items():
    H["jnp." + _n] = _un(_f)
for _n in ("tanh", "sin", "cos", "arctan", "sinh", "cosh", "sign", "abs"):
    H["jnp." + _n] = _un(lambda x, _n=_n: T.unary(_n, x))
H["jnp.absolute"] = H["jnp.fabs"] = H["jnp.abs"]
H["math.exp"], H["math.log"], H["math.sqrt"], H["math.fabs"], H["math.tanh"] = (
    H["jnp.exp"], H["jnp.log"], H["jnp.sqrt"], H["jnp.abs"], H["jnp.tanh"])
H["math.isnan"], H["math.isfinite"], H["math.isinf"] = H["jnp.isnan"], H["jnp.isfinite"], H["jnp.isinf"]
H["jax.nn.relu"] = _un(lambda x: T.unary("relu", x))
H["jax.nn.tanh"] = H["jnp.tanh"]
H["jax.nn.softplus"] = _un(lambda x: mk("softplus", x))
H["jax.nn.sigmoid"] = _un(lambda x: mk("sigmoid", x))
for _n in ("swish", "silu", "gelu", "elu", "selu", "leaky_relu", "log_sigmoid", "softsign"):
    H["jax.nn." + _n] = _un(lambda x, _n=_n: mk("nn_" + _n, x))
H["scipy.special.erf"] = _un(lambda x: T.unary("erf", x))


def _bin(f):
    def g(I, a, k, n):
        x, y = arr(I, a[0]), arr(I, a[1])
        if not I._arith(x) or not I._arith(y):
            return I.unk(n, "elementwise", x, y)
        return f(x, y)
    return g


for _n, _f in {"add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div,
               "floor_divide": T.floordiv, "less": T.cmp_lt, "less_equal": T.cmp_le,
               "greater": lambda x, y: T.cmp_lt(y, x), "greater_equal": lambda x, y: T.cmp_le(y, x),
               "equal": T.cmp_eq, "not_equal": lambda x, y: T.not_(T.cmp_eq(x, y)),
               "logical_and": T.and_, "logical_or": T.or_, "bitwise_and": T.and_, "bitwise_or": T.or_,
               "power": T.power, "float_power": T.power,
               "maximum": T.max_, "minimum": T.min_,
               "mod": T.mod, "remainder": T.mod,
               "logical_xor": lambda x, y: mk("xor", *sorted([x, y], key=lambda t: t.uid if isinstance(t, Term) else -1)),
               "logaddexp": lambda x, y: T.log(T.add(T.exp(x), T.exp(y)))}.items():
    H["jnp." + _n] = _bin(_f)


@h("jnp.where", "jax.lax.select", "jax.numpy.where")
def _where(I, a, k, n):
    A = Args(I, a, k, "condition x y", n)
    if not A.has("x"):
        return mk("nonzero", I.freeze(A("condition")))
    c = A("condition")
    x, y = arr(I, A("x")), arr(I, A("y"))
    if isinstance(c, (tuple,)) or I.is_list(c):
        c = arr(I, c)
    if is_num(c):
        c = bool(c)
    return T.sel(c, x, y)


@h("jnp.select")
def _select(I, a, k, n):
    cs, vs = I.items(a[0]), I.items(a[1])
    out = a[2] if len(a) > 2 else k.get("default", 0)
    for c, v in reversed(list(zip(cs, vs))):
        out = T.sel(c, arr(I, v), out)
    return out


@h("jnp.clip", "jax.lax.clamp")
def _clip(I, a, k, n):
    A = Args(I, a, k, "a a_min a_max", n)
    x = arr(I, A("a") if A.has("a") else k.get("arr", k.get("x")))
    lo = A("a_min", k.get("min"))
    hi = A("a_max", k.get("max"))
    return clip(x, lo, hi)


def clip(x, lo, hi):
    return mk("clip", x, lo, hi)


H["jax.lax.clamp"] = lambda I, a, k, n: clip(arr(I, a[1]), a[0], a[2])


@h("optax.projections.projection_box")
def _projbox(I, a, k, n):
    A = Args(I, a, k, "tree lower upper", n)
    return clip(A("tree"), A("lower"), A("upper"))


@h("jnp.nan_to_num")
def _nan2num(I, a, k, n):
    return mk("nan_to_num", a[0], tuple((x, I.freeze(v)) for x, v in sorted(k.items())))


@h("jnp.finfo", "jnp.iinfo")
def _finfo(I, a, k, n):
    return mk("finfo", dtype_name(I, a[0]))


@h("jnp.result_type", "jnp.promote_types")
def _rt(I, a, k, n):
    return mk("dtype_of", tuple(I.freeze(x) for x in a))


# ------------------------------------------------------------------ jnp: reductions

def red(op, x, axis, keep=False):
    if not isinstance(x, Term):
        return x
    if isinstance(axis, tuple):
        axs = sorted([axis_of(x, z) for z in axis], reverse=True)
        for z in axs:
            x = red(op, x, z)
        return x
    ax = axis_of(x, axis)
    if op == "sum":
        return T.sum_(x, ax)
    if T.rank(x) == 1:
        ax = None
    if T.rank(x) == 0:
        return x
    return mk(op, x, ax)


def _red(op):
    def f(I, a, k, n):
        A = Args(I, a, k, "a axis dtype", n)
        x = arr(I, A("a"))
        ax = A("axis")
        if k.get("keepdims"):
            ax2 = axis_of(x, ax)
            r = red(op, x, ax)
            return expand_dims(I, r, ax2 if ax2 is not None else 0, n)
        if k.get("where") is not None:
            return I.unk(n, "masked reduction", x)
        return red(op, x, ax)
    return f


for _n, _o in {"sum": "sum", "prod": "prod", "any": "any", "all": "all", "max": "amax", "amax": "amax",
               "min": "amin", "amin": "amin", "argmax": "argmax", "argmin": "argmin", "median": "median",
               "nansum": "nansum", "nanmax": "nanmax", "nanmin": "nanmin", "nanmean": "nanmean",
               "std": "std", "var": "var", "logsumexp": "logsumexp", "count_nonzero": "count_nonzero"}.items():
    H["jnp." + _n] = _red(_o)
H["jax.nn.logsumexp"] = H["scipy.special.logsumexp"] = _red("logsumexp")


@h("jnp.mean", "jnp.average")
def _mean(I, a, k, n):
    A = Args(I, a, k, "a axis", n)
    x = arr(I, A("a"))
    if not isinstance(x, Term):
        return x
    return mean(x, A("axis"))


def mean(x, axis):
    ax = axis_of(x, axis)
    r = T.rank(x)
    if r == 0:
        return x
    if r == 1:
        ax = None
        return T.div(T.sum_(x, None), T.length(x))
    if ax == 0:
        return T.div(T.sum_(x, 0), T.length(x))
    d = T.dims(x)
    if ax is None and d is not None:
        return T.div(T.sum_(x, None), T.mul(*d))
    return mk("mean", x, ax)


@h("jnp.cumsum")
def _cumsum(I, a, k, n):
    A = Args(I, a, k, "a axis", n)
    x = arr(I, A("a"))
    ax = axis_of(x, A("axis"))
    return cumsum(x, ax)


def cumsum(x, ax):
    r = T.rank(x)
    if r == 1:
        ax = 0
    if isinstance(x, Term) and x.op == "comp" and isinstance(ax, int) and ax >= 1:
        v = fresh("c", 0)
        return T.comp(v, cumsum(T.subst(x.args[1], {x.args[0]: v}), ax - 1), x.args[2])
    t = mk("cumsum", x, ax)
    d = T.dims(x)
    if d is not None:
        T.LEN[t] = d
    if r is not None:
        T.RANK[t] = r
    return t


@h("jax.nn.softmax")
def _softmax(I, a, k, n):
    A = Args(I, a, k, "x axis", n)
    x = A("x")
    t = mk("softmax", x, axis_of(x, A("axis", -1)))
    r = T.rank(x)
    if r is not None:
        T.RANK[t] = r
    d = T.dims(x)
    if d is not None:
        T.LEN[t] = d
    return t


# ------------------------------------------------------------------ jnp: linear algebra

@h("jnp.dot", "jnp.matmul", "jnp.inner", "jnp.vdot")
def _dot(I, a, k, n):
    return T.dot(arr(I, a[0]), arr(I, a[1]))


@h("jnp.outer")
def _outer(I, a, k, n):
    return mk("outer", arr(I, a[0]), arr(I, a[1]))


@h("jnp.einsum")
def _einsum(I, a, k, n):
    s = a[0]
    xs = [arr(I, x) for x in a[1:]]
    if isinstance(s, str):
        s = s.replace(" ", "").replace("...", "")
        if "->" in s:
            ins, out = s.split("->")
            ins = ins.split(",")
            if ins == ["i", "ij", "j"] and out == "":
                return T.dot(xs[0], xs[1], xs[2])
            if len(ins) == 2 and len(ins[0]) == len(ins[1]) == 1 and ins[0] == ins[1]:
                return T.sum_(T.mul(*xs)) if out == "" else T.mul(*xs)
            if len(ins) == 2 and len(ins[0]) == 2 and len(ins[1]) == 1 and ins[0][1] == ins[1] and out == ins[0][0]:
                return T.dot(*xs)
            if len(ins) == 2 and len(ins[0]) == 1 and len(ins[1]) == 2 and ins[0] == ins[1][0] and out == ins[1][1]:
                return T.dot(*xs)
            if len(ins) == 2 and len(ins[0]) == 2 and len(ins[1]) == 1 and ins[0][0] == ins[1] and out == ins[0][1]:
                return T.dot(xs[1], xs[0])
            if len(ins) == 2 and len(ins[0]) == 1 and len(ins[1]) == 2 and ins[0] == ins[1][1] and out == ins[1][0]:
                return T.dot(xs[1], xs[0])
    return I.unk(n, "einsum", *xs)


@h("jnp.diag", "jnp.diagonal")
def _diag(I, a, k, n):
    x = arr(I, a[0])
    if isinstance(x, Term) and x.op == "diag" and T.rank(x) == 2:
        return x.args[0]
    if isinstance(x, Term) and x.op == "eye":
        return mk("full", (x.args[0],), 1)
    t = mk("diag", x)
    r = T.rank(x)
    if r in (1, 2):
        T.RANK[t] = 3 - r
    d = T.dims(x)
    if d:
        T.LEN[t] = [d[0]] if len(d) == 2 else [d[0], d[0]]
    return t


@h("jnp.trace")
def _trace(I, a, k, n):
    t = mk("trace", a[0])
    T.RANK[t] = 0
    return t


@h("jnp.linalg.inv")
def _inv(I, a, k, n):
    x = a[0]
    if isinstance(x, Term) and x.op == "inv":
        return x.args[0]
    t = mk("inv", x)
    T.RANK[t] = 2
    return t


@h("jnp.linalg.cholesky", "scipy.linalg.cholesky")
def _chol(I, a, k, n):
    t = mk("chol", a[0])
    T.RANK[t] = 2
    if k.get("lower") is False or (len(a) > 1 and a[1] is False):
        return T.transpose(t)
    return t


H["scipy.linalg.cholesky"] = lambda I, a, k, n: (
    _chol(I, a[:1], {}, n) if (k.get("lower", a[1] if len(a) > 1 else False) is True) else T.transpose(_chol(I, a[:1], {}, n)))


@h("jnp.linalg.solve", "scipy.linalg.solve")
def _solve(I, a, k, n):
    return T.dot(_inv(I, [a[0]], {}, n), a[1])


@h("jnp.linalg.norm")
def _norm(I, a, k, n):
    if len(a) == 1 and not k and T.rank(a[0]) == 1:
        return T.power(T.sum_(T.mul(a[0], a[0])), Fraction(1, 2))
    return mk("norm", I.freeze(a[0]), tuple(I.freeze(x) for x in a[1:]), tuple((x, I.freeze(v)) for x, v in sorted(k.items())))


@h("jnp.linalg.det")
def _det(I, a, k, n):
    t = mk("det", a[0])
    T.RANK[t] = 0
    return t


@h("jnp.linalg.slogdet")
def _slogdet(I, a, k, n):
    t = mk("det", a[0])
    T.RANK[t] = 0
    return (T.unary("sign", t), T.log(T.unary("abs", t)))


@h("jnp.cov")
def _cov(I, a, k, n):
    A = Args(I, a, k, "m y rowvar bias ddof", n)
    x = arr(I, A("m"))
    if A("rowvar", True) is False:
        x = T.transpose(x)
    rest = {q: v for q, v in k.items() if q not in ("m", "rowvar", "y") and v is not None}
    if A("y") is not None:
        rest["y"] = A("y")
    t = mk("cov", x, tuple((q, I.freeze(v)) for q, v in sorted(rest.items())))
    if T.rank(x) == 2:
        T.RANK[t] = 2
    return t


@h("jnp.transpose", "jnp.matrix_transpose")
def _transpose(I, a, k, n):
    if len(a) > 1 or "axes" in k:
        ax = I.freeze(a[1] if len(a) > 1 else k["axes"])
        if ax in ((1, 0),):
            return T.transpose(a[0])
        return mk("permute", I.freeze(a[0]), ax)
    return T.transpose(arr(I, a[0]))


@h("jnp.swapaxes", "jnp.moveaxis")
def _swap(I, a, k, n):
    x = a[0]
    r = T.rank(x)
    p, q = axis_of(x, a[1]), axis_of(x, a[2])
    if {p, q} == {0, 1}:
        return swap01(x)
    return mk("swapaxes", x, *sorted([p, q], key=str))


def swap01(x):
    if T.rank(x) == 2:
        return T.transpose(x)
    if isinstance(x, Term) and x.op == "comp" and isinstance(x.args[1], Term):
        i, body, m = x.args
        d = T.length(body)
        v, w = fresh("a", 0), fresh("b", 0)
        if not (T.free_vars(d) & {i}):
            return T.comp(w, T.comp(v, T.elem(T.subst(body, {i: v}), w), m), d)
    return mk("swapaxes", x, 0, 1)


# ------------------------------------------------------------------ jnp: shape

def expand_dims(I, x, axis, n):
    ax = axis
    r = T.rank(x)
    if isinstance(ax, int) and ax < 0 and r is not None:
        ax = r + 1 + ax
    if ax == 0:
        return I._aidx(x, [None], n)
    if isinstance(ax, int) and ax > 0:
        return I._aidx(x, [I_.SliceV(None, None, None)] * ax + [None], n)
    return mk("expand", x, ax)


@h("jnp.expand_dims")
def _expand(I, a, k, n):
    A = Args(I, a, k, "a axis", n)
    return expand_dims(I, arr(I, A("a")), A("axis"), n)


@h("jnp.atleast_1d")
def _al1(I, a, k, n):
    x = arr(I, a[0])
    r = T.rank(x)
    if r is None or r >= 1:
        return x
    return I._aidx(x, [None], n)


@h("jnp.atleast_2d")
def _al2(I, a, k, n):
    x = arr(I, a[0])
    r = T.rank(x)
    if r is None or r >= 2:
        return x
    if r == 1:
        return I._aidx(x, [None], n)
    return I._aidx(I._aidx(x, [None], n), [None], n)


@h("jnp.squeeze")
def _squeeze(I, a, k, n):
    A = Args(I, a, k, "a axis", n)
    x = A("a")
    ax = axis_of(x, A("axis"))
    if isinstance(ax, int) and ax >= 0:
        return I._aidx(x, [I_.SliceV(None, None, None)] * ax + [0], n)
    if isinstance(x, Term) and x.op == "newax":
        return x.args[0]
    return mk("squeeze", x, I.freeze(A("axis")))


@h("jnp.ravel", "jnp.flatten")
def _ravel(I, a, k, n):
    return reshape(I, arr(I, a[0]), (-1,), n)


@h("jnp.reshape")
def _reshape(I, a, k, n):
    A = Args(I, a, k, "a shape", n)
    s = A("shape", k.get("newshape"))
    return reshape(I, arr(I, A("a")), shp(I, s), n)


def reshape(I, x, shape, node):
    if not isinstance(x, Term):
        return x if shape in ((), (-1,)) else mk("full", shape, x)
    if not isinstance(shape, tuple):
        return mk("reshape", x, shape)
    d = T.dims(x)
    r = T.rank(x)
    neg = [i for i, s in enumerate(shape) if T.const_of(s) == -1]
    if len(shape) == r == 1:
        return x
    # infer the free dimension when the total is known
    tot = T.mul(*d) if d else (1 if d == [] else None)
    full = list(shape)
    if neg and tot is not None:
        rest = T.mul(*[s for i, s in enumerate(shape) if i not in neg]) if len(shape) > 1 else 1
        q = T.div(tot, rest)
        if T._is_int_poly(q):
            full[neg[0]] = q
    if len(neg) == 1 and d is not None and T.const_of(full[neg[0]]) == -1 and r is not None and len(shape) == r + 1 \
            and neg[0] >= 2 and same(T.mul(shape[0], shape[1]), d[0]):
        full[neg[0]] = d[neg[0] - 1]          # (a, b, .., -1, ..) of an axis of length a*b
    if d is not None and len(d) == len(full) and all(same(p, q) for p, q in zip(d, full)):
        return x
    if d is not None and len(d) == len(shape) and sum(not same(p, q) for p, q in zip(d, shape)) == len(neg) == 1:
        return x          # (.., -1, ..) with every other dimension unchanged
    nd = len(shape)
    # merging the two leading axes
    if r is not None and nd == r - 1 and r >= 2:
        ok = nd == 1
        if d is not None and nd >= 1 and all(same(p, q) for p, q in zip(d[2:], full[1:])):
            ok = True
        if ok:
            return T.flat(x, d[1] if d is not None else inner_len(x))
    if nd == 1 and r is not None and r >= 3 and neg:
        return reshape(I, T.flat(x, d[1] if d is not None else inner_len(x)), shape, node)
    # splitting the leading axis
    if r is not None and nd == r + 1:
        if d is None or all(same(p, q) for p, q in zip(d[1:], full[2:])):
            a, b = full[0], full[1]
            if T.const_of(a) == -1:
                a = mk("floordiv", T.length(x), b)
            if T.const_of(b) == -1:
                b = mk("floordiv", T.length(x), a)
            t = T.split2(x, a, b)
            T.RANK[t] = nd
            T.LEN[t] = [a, b] + (list(d[1:]) if d is not None else list(full[2:]))
            return t
    t = mk("reshape", x, tuple(full))
    T.RANK[t] = nd
    if not any(T.const_of(s) == -1 for s in full):
        T.LEN[t] = list(full)
    else:
        T.LEN[t] = [s if T.const_of(s) != -1 else mk("inferdim", x, tuple(full)) for s in full]
    return t


def inner_len(x):
    return T.dim(x, 1)


@h("jnp.concatenate", "jnp.concat")
def _concat(I, a, k, n):
    A = Args(I, a, k, "arrays axis", n)
    return concat(I, A("arrays"), A("axis", 0), n)


@h("jnp.hstack")
def _hstack(I, a, k, n):
    it = I.items(a[0])
    r = next((T.rank(x) for x in it or () if isinstance(x, Term) and T.rank(x) is not None), None)
    return concat(I, a[0], 1 if r is not None and r > 1 else 0, n)


@h("jnp.append")
def _append(I, a, k, n):
    A = Args(I, a, k, "arr values axis", n)
    parts, ax = (A("arr"), A("values")), A("axis")
    if ax is not None:
        return concat(I, parts, ax, n)
    out = []
    for x in parts:
        r = T.rank(x) if isinstance(x, Term) else None
        if r is not None and r > 1:
            return I.unk(n, "append to an array with several axes", *parts)
        out.append(mk("arr", (I.freeze(x),)) if r == 0 or not isinstance(x, (Term, tuple)) else x)
    return concat(I, tuple(out), 0, n)


def concat(I, v, axis, node):
    it = I.items(v)
    if it is None:
        if isinstance(v, Term) and v.op in ("lst",):
            it = v.args[0]
        else:
            # concatenate over the leading axis of one array
            return T.flat(v, inner_len(v))
    parts = []
    for x in it:
        if isinstance(x, I_.Seg):
            parts.append(seg_concat(I, x, axis, node))
        else:
            parts.append(arr(I, x))
    rs = [T.rank(p) for p in parts]
    ax = T.const_of(axis) if axis is not None else 0
    if ax is None:
        return I.unk(node, "concatenate axis", *parts)
    ax = int(ax)
    r = next((x for x in rs if x is not None), None)
    if ax < 0:
        if r is None:
            return mk("concatax", tuple(parts), ax)
        ax += r
    return concat_ax(parts, ax)


def concat_ax(parts, ax):
    if len(parts) == 1:
        return parts[0]
    if ax == 0:
        ps = []
        for p in parts:
            ps.extend(p.args[0] if isinstance(p, Term) and p.op == "concat" else [p])
        # merge adjacent literals
        out = []
        for p in ps:
            if isinstance(p, Term) and p.op == "full" and isinstance(p.args[0], tuple) and len(p.args[0]) == 1 \
                    and T.const_of(p.args[0][0]) == 1:
                p = mk("arr", (p.args[1],))
            if isinstance(p, Term) and p.op == "newax":
                p = mk("arr", (p.args[0],))
            if out and isinstance(p, Term) and p.op == "arr" and isinstance(out[-1], Term) and out[-1].op == "arr":
                out[-1] = mk("arr", out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        return T.concat(out)
    v = fresh("c", 0)
    return T.comp(v, concat_ax([T.elem(p, v) for p in parts], ax - 1), T.length(parts[0]))


def seg_concat(I, seg, axis, node):
    """concatenate([piece(i) for i in range(n)]): pieces that tile an index range"""
    if len(seg.items) != 1:
        return I.unk(node, "concatenate of interleaved pieces")
    piece = arr(I, seg.items[0])
    n = seg.n
    if T.const_of(axis) not in (0, None):
        return I.unk(node, "concatenate of pieces along an inner axis", piece)
    return tile(I, seg.idx, piece, n, node)


def tile(I, idx, piece, n, node):
    """flatten the pieces of a blocked loop: piece i covers rows [i*B, min(i*B+B, N))"""
    if isinstance(piece, Term) and piece.op == "comp":
        j, body, m = piece.args
        q = fresh("q", 0)
        jj = fresh("j", 0)
        b = T.subst(body, {j: jj})
        # rows of piece i: m = min(i*B + B, N) - i*B
        B, N = block_of(m, idx, n)
        if B is not None:
            cand = T.subst(b, {jj: T.sub(q, T.mul(idx, B))})
            if idx not in T.free_vars(cand):
                return T.comp(q, cand, N)
    if isinstance(piece, Term) and piece.op == "slice":
        base, lo, st, m = piece.args
        B, N = block_of(m, idx, n)
        if B is not None and idx not in T.free_vars(base) and T.const_of(st) == 1 and same(lo, T.mul(idx, B)):
            return T.slice_(base, 0, 1, N)
    return mk("concatmap", T.lam(idx, piece), n)


def block_of(m, idx, n):
    """block size and total length when m = min(i*B+B, N) - i*B and n = ceil(N/B), or m constant"""
    if not isinstance(m, Term) or idx not in T.free_vars(m):
        return (m, T.mul(m, n))
    if m.op == "min" and idx in T.free_vars(m):
        # min(B, N - i*B)
        cands = [x for x in m.args[0]]
        if len(cands) == 2:
            for B, R in (cands, cands[::-1]):
                if not (T.free_vars(B) & {idx}):
                    N = T.add(R, T.mul(idx, B))
                    if not (T.free_vars(N) & {idx}) and same(n, T.ceildiv(N, B)):
                        return B, N
        return None, None
    mn = [t for t in T.walk(m) if t.op == "min" and idx in T.free_vars(t)]
    if len(mn) == 1 and len(mn[0].args[0]) == 2:
        w = fresh("w", 0)
        lin = T.subst(m, {mn[0]: w}) if False else T.sub(m, mn[0])
        # m = min(hi, N) - lo
        if isinstance(lin, Term) and any(t is mn[0] for t in T.walk(lin)):
            return None, None
        lo = T.neg(lin)
        for hi, N in (mn[0].args[0], mn[0].args[0][::-1]):
            if T.free_vars(N) & {idx}:
                continue
            B = T.sub(hi, lo)
            if (not isinstance(B, Term) or not (T.free_vars(B) & {idx})) and same(lo, T.mul(idx, B)) \
                    and same(n, T.ceildiv(N, B)):
                return B, N
    return None, None


@h("jnp.vstack", "jnp.row_stack")
def _vstack(I, a, k, n):
    it = I.items(a[0])
    if it is None or any(isinstance(x, I_.Seg) for x in it):
        return I.unk(n, "vstack", a[0])
    if all(T.rank(arr(I, x)) == 1 for x in it):
        return mk("arr", tuple(arr(I, x) for x in it))
    return concat(I, a[0], 0, n)


@h("jnp.stack")
def _stack(I, a, k, n):
    A = Args(I, a, k, "arrays axis", n)
    it = I.items(A("arrays"))
    ax = A("axis", 0)
    if it is None:
        return A("arrays") if T.const_of(ax) == 0 else I.unk(n, "stack", A("arrays"))
    if any(isinstance(x, I_.Seg) for x in it):
        x = arr(I, A("arrays"))
        return x if T.const_of(ax) == 0 else I.unk(n, "stack", x)
    parts = tuple(arr(I, x) for x in it)
    r = next((T.rank(p) for p in parts if T.rank(p) is not None), None)
    c = int(T.const_of(ax))
    if c < 0 and r is not None:
        c += r + 1
    return stack_ax(parts, c)


def stack_ax(parts, c):
    if c == 0:
        return mk("arr", parts)
    v = fresh("s", 0)
    return T.comp(v, stack_ax(tuple(T.elem(p, v) for p in parts), c - 1), T.length(parts[0]))


H["jnp.column_stack"] = lambda I, a, k, n: _stack(I, [a[0], 1], {}, n)


@h("jnp.flip", "jnp.flipud")
def _flip(I, a, k, n):
    A = Args(I, a, k, "m axis", n)
    x = A("m")
    ax = axis_of(x, A("axis", 0 if T.rank(x) == 1 else None))
    if isinstance(x, Term) and x.op == "arr" and ax == 0:
        return mk("arr", tuple(reversed(x.args[0])))
    return mk("flip", x, ax) if ax is not None else mk("flipall", x)


@h("jnp.repeat")
def _repeat(I, a, k, n):
    A = Args(I, a, k, "a repeats axis", n)
    x, m, ax = arr(I, A("a")), A("repeats"), A("axis")
    if ax is not None:
        ax = axis_of(x, ax)
        if ax == 0:
            if isinstance(x, Term) and x.op == "newax":
                return T.comp(fresh("r", 0), x.args[0], m)
            if T.const_of(T.length(x)) == 1:
                return T.comp(fresh("r", 0), T.elem(x, 0), m)
            return mk("repeat", x, m, 0)
        v = fresh("r", 0)
        return T.comp(v, _repeat(I, [T.elem(x, v), m, ax - 1], {}, n), T.length(x))
    return mk("repeat", x, m, None)


def one_key(x):
    """x is a single random key"""
    return isinstance(x, Term) and (x.op in ("foldin", "key") or x.op == "elem" and isinstance(x.args[0], Term) and
                                    x.args[0].op == "keysplit")


@h("jnp.tile")
def _tile(I, a, k, n):
    A = Args(I, a, k, "A reps", n)
    x, m = arr(I, A("A")), I.items(shp(I, A("reps")))
    if one_key(x) and m is not None and len(m) == 2 and T.const_of(m[1]) == 1:
        return mk("full", (m[0],), x)
    return mk("tile", arr(I, a[0]), I.freeze(shp(I, a[1])))


@h("jnp.broadcast_to")
def _bto(I, a, k, n):
    A = Args(I, a, k, "array shape", n)
    x, s = arr(I, A("array")), shp(I, A("shape"))
    if one_key(x) and isinstance(s, tuple) and len(s) > 1 and T.const_of(s[-1]) == 2:
        return mk("full", s[:-1], x)
    if not isinstance(x, Term) or T.rank(x) == 0:
        t = mk("full", s, x)
        if isinstance(s, Term):
            r = T.rank(s.args[0]) if s.op == "shape" else None
            if r is not None:
                T.RANK[t] = r
        return t
    if isinstance(s, tuple) and T.dims(x) is not None and len(s) == len(T.dims(x)) and all(
            same(p, q) for p, q in zip(s, T.dims(x))):
        return x
    t = mk("bto", x, s)
    if isinstance(s, tuple):
        T.RANK[t] = len(s)
        T.LEN[t] = list(s)
    elif s.op == "shape" and T.rank(s.args[0]) is not None:
        T.RANK[t] = T.rank(s.args[0])
    return t


@h("jnp.shape")
def _shape(I, a, k, n):
    return I.shape_of(a[0]) if isinstance(a[0], Term) else ()


@h("jnp.ndim")
def _ndim(I, a, k, n):
    r = T.rank(arr(I, a[0]))
    return r if r is not None else mk("ndim", a[0])


@h("jnp.size")
def _size(I, a, k, n):
    return I.get_attr(arr(I, a[0]), "size", n)


@h("jnp.take")
def _take(I, a, k, n):
    A = Args(I, a, k, "a indices axis", n)
    ax = axis_of(A("a"), A("axis", 0))
    return I._aidx(A("a"), [I_.SliceV(None, None, None)] * ax + [arr(I, A("indices"))], n)


@h("jnp.split")
def _jsplit(I, a, k, n):
    A = Args(I, a, k, "ary indices_or_sections axis", n)
    x, at = arr(I, A("ary")), A("indices_or_sections")
    at, ax = I.items(at), A("axis", 0)
    ax = int(T.const_of(ax)) if T.const_of(ax) is not None else None
    if ax is not None and ax < 0:
        ax = None if T.rank(x) is None else ax + T.rank(x)
    if at is None or ax is None:
        return _opaque(I, a, k, n)
    cuts = [None, *at, None]
    return tuple(I._aidx(x, [I_.SliceV(None, None, None)] * ax + [I_.SliceV(lo, hi, None)], n)
                 for lo, hi in zip(cuts[:-1], cuts[1:]))


@h("jnp.diff")
def _diff(I, a, k, n):
    A = Args(I, a, k, "a n axis", n)
    x = arr(I, A("a"))
    r = T.diff(x) if A("n", 1) == 1 and T.rank(x) is not None and axis_of(x, A("axis", -1)) == 0 else None
    return r if r is not None else _opaque(I, a, k, n)


@h("jnp.take_along_axis", "jnp.searchsorted", "jnp.sort", "jnp.argsort", "jnp.unique", "jnp.histogram",
   "jnp.histogramdd", "jnp.nonzero", "jnp.triu", "jnp.tril", "jnp.roll", "jnp.interp", "jnp.quantile", "jnp.percentile",
   "jnp.kron", "jnp.meshgrid", "jnp.array_split", "jnp.pad", "jnp.cumprod", "jnp.piecewise")
def _opaque(I, a, k, n):
    name = getattr(n.func, "attr", "lib") if n is not None and hasattr(n, "func") else "lib"
    t = mk("jn_" + name, tuple(I.freeze(x) for x in a), tuple((x, I.freeze(v)) for x, v in sorted(k.items())))
    return t


# ------------------------------------------------------------------ random

@h("jax.random.split")
def _split(I, a, k, n):
    A = Args(I, a, k, "key num", n)
    num = A("num", 2)
    if isinstance(num, tuple):
        num = num[0] if len(num) == 1 else mk("tup", I.freeze(num))
    return mk("keysplit", A("key"), I.freeze(num))


@h("jax.random.fold_in")
def _foldin(I, a, k, n):
    return mk("foldin", a[0], I.freeze(a[1]))


@h("jax.random.PRNGKey", "jax.random.key")
def _prng(I, a, k, n):
    return mk("key", I.freeze(a[0]))


def rnd(I, kind, key, shape, node, *extra):
    tag = ()
    if I.tag_sites:
        tag = ("@" + I.site(node) + "|" + ">".join(str(s[2].lineno) if len(s) > 2 and s[2] is not None else "?"
                                                    for s in I.stack[-4:]),)
    t = mk("rnd", kind, key, shape, *(tuple(I.freeze(x) for x in extra) + tag))
    I.emit("rnd", node, key=key, term=t)
    return t


def _rnd(kind, names, shape_default=(), shape_name="shape"):
    def f(I, a, k, n):
        A = Args(I, a, k, names, n)
        s = shp(I, A(shape_name)) if A.has(shape_name) and A(shape_name) is not None else shape_default
        ex = []
        for nm in names.split():
            if nm in ("key", shape_name, "dtype"):
                continue
            dflt = {"minval": 0, "maxval": 1, "replace": True, "p": None, "axis": 0}.get(nm)
            ex.append(arr(I, A(nm, dflt)))
        if kind == "uniform" and ex == [0, 1]:
            ex = []
        return rnd(I, kind, A("key"), s, n, *ex)
    return f


H["jax.random.normal"] = _rnd("normal", "key shape dtype")
H["jax.random.uniform"] = _rnd("uniform", "key shape dtype minval maxval")
H["jax.random.exponential"] = _rnd("exponential", "key shape dtype")
H["jax.random.laplace"] = _rnd("laplace", "key shape dtype")
H["jax.random.cauchy"] = _rnd("cauchy", "key shape dtype")
H["jax.random.gumbel"] = _rnd("gumbel", "key shape dtype")
H["jax.random.t"] = _rnd("student", "key df shape dtype")
H["jax.random.gamma"] = _rnd("gamma", "key a shape dtype")
H["jax.random.bernoulli"] = _rnd("bernoulli", "key p shape")
H["jax.random.randint"] = _rnd("randint", "key shape minval maxval dtype")
H["jax.random.categorical"] = _rnd("categorical", "key logits axis shape")
H["jax.random.truncated_normal"] = _rnd("truncnormal", "key lower upper shape dtype")
H["jax.random.rademacher"] = _rnd("rademacher", "key shape dtype")


@h("jax.random.choice")
def _choice(I, a, k, n):
    """draws places of `a` (an integer stands for its range)"""
    A = Args(I, a, k, "key a shape replace p axis", n)
    x = arr(I, A("a"))
    r = T.rank(x)
    if r is None and isinstance(x, Term) and x.op == "poly" and all(
            any(y.op == "len" for y, _ in m) and all(y.op in ("len", "attr") for y, _ in m) for m, _ in x.args[0]):
        r = 0                                  # a number of rows
    s = shp(I, A("shape")) if A("shape") is not None else ()
    N = x if r == 0 else T.length(x)
    t = rnd(I, "choice", A("key"), s, n, N, arr(I, A("replace", True)), arr(I, A("p")) if A("p") is not None else None)
    if r == 0:
        return t
    if r is None or T.const_of(A("axis", 0)) != 0 or not isinstance(s, tuple) or len(s) > 1:
        return I.unk(n, "choice among an array", t, x)
    if not s:
        return T.elem(x, t)
    v = T.fresh("i", 0)
    return T.comp(v, T.elem(x, T.elem(t, v)), s[0])


@h("jax.random.multivariate_normal")
def _mvn(I, a, k, n):
    A = Args(I, a, k, "key mean cov shape dtype method", n)
    s = shp(I, A("shape")) if A("shape") is not None else ()
    t = rnd(I, "mvn", A("key"), s, n, A("mean"), A("cov"))
    if isinstance(s, tuple):
        d = T.dims(A("mean"))
        T.RANK[t] = len(s) + 1
        if d:
            T.LEN[t] = list(s) + list(d)
        else:
            T.LEN[t] = list(s) + [T.length(A("mean"))]
    return t


@h("jax.random.permutation")
def _perm(I, a, k, n):
    A = Args(I, a, k, "key x axis independent", n)
    x = arr(I, A("x"))
    if T.rank(x) not in (None, 0) and T.const_of(A("axis", 0)) == 0 and A("independent", False) is False:
        # the rows of x in the order of a random permutation
        N = T.length(x)
        t = rnd(I, "permutation", A("key"), (N,), n, N)
        T.RANK[t] = 1
        T.LEN[t] = [N]
        v = T.fresh("i", 0)
        return T.comp(v, T.elem(x, T.elem(t, v)), N)
    t = rnd(I, "permutation", A("key"), (x,) if T.rank(x) == 0 else mk("shape", x), n, x)
    if T.rank(x) == 0:
        T.RANK[t] = 1
        T.LEN[t] = [x]
    return t


# ------------------------------------------------------------------ scipy stats

LOG2PI = T.log(T.mul(2, mk("pi")))


def mvn_logpdf(x, mean, cov):
    if T.rank(cov) == 0 and T.rank(mean) == 1:
        y = T.sub(x, mean)
        return T.add(T.mul(Fraction(-1, 2), T.div(T.sum_(T.mul(y, y)), cov)),
                     T.mul(Fraction(-1, 2), T.length(mean), T.add(LOG2PI, T.log(cov))))
    if isinstance(cov, Term) and cov.op == "eye" and T.rank(x) in (0, 1):
        y = T.sub(x, mean)
        if T.rank(y) == 1:
            return T.add(T.mul(Fraction(-1, 2), T.sum_(T.mul(y, y))), T.mul(Fraction(-1, 2), cov.args[0], LOG2PI))
    return T.mvn_logpdf(x, mean, cov)


@h("scipy.stats.multivariate_normal.logpdf")
def _mvnl(I, a, k, n):
    A = Args(I, a, k, "x mean cov", n)
    return mvn_logpdf(A("x"), A("mean", 0), A("cov", 1))


@h("scipy.stats.multivariate_normal.pdf")
def _mvnp(I, a, k, n):
    return T.exp(_mvnl(I, a, k, n))


@h("scipy.stats.norm.logpdf")
def _norml(I, a, k, n):
    A = Args(I, a, k, "x loc scale", n)
    y = T.div(T.sub(A("x"), A("loc", 0)), A("scale", 1))
    return T.add(T.mul(Fraction(-1, 2), T.mul(y, y)), T.neg(T.log(A("scale", 1))), T.mul(Fraction(-1, 2), LOG2PI))


# ------------------------------------------------------------------ jax transformations

def _mkwrap(kind, names):
    def f(I, a, k, n):
        A = Args(I, a, k, names, n)
        fn = A("fun", k.get("fn", k.get("f")))
        opts = {x: I.freeze(v) if not isinstance(v, dict) else v for x, v in
                list(A.d.items()) + list(A.extra.items()) if x not in ("fun", "fn", "f")}
        if fn is None:
            return I_.PyFn(lambda I2, aa, kk, nn: I_.Wrap(kind, aa[0], opts), kind)
        return I_.Wrap(kind, fn, opts)
    return f


H["jax.vmap"] = _mkwrap("vmap", "fun in_axes out_axes")
H["jax.jit"] = H["jax.pmap"] = _mkwrap("jit", "fun")
H["jax.checkpoint"] = H["jax.remat"] = H["eqx.filter_checkpoint"] = _mkwrap("jit", "fun")
H["jax.grad"] = _mkwrap("grad", "fun argnums has_aux")
H["jax.value_and_grad"] = _mkwrap("vgrad", "fun argnums has_aux")
H["jax.jacrev"] = H["jax.jacfwd"] = H["jax.jacobian"] = _mkwrap("jac", "fun argnums")
H["jax.hessian"] = _mkwrap("hess", "fun argnums")
H["eqx.filter_jit"] = _mkwrap("jit", "fun")
H["eqx.filter_vmap"] = _mkwrap("fvmap", "fun")
H["eqx.filter_grad"] = _mkwrap("grad", "fun")
H["eqx.filter_value_and_grad"] = _mkwrap("vgrad", "fun")
H["eqx.filter_jacrev"] = H["eqx.filter_jacfwd"] = _mkwrap("jac", "fun")


def call_wrap(I, w, args, kwargs, node):
    if w.kind == "jit":
        return I.traced("traced", lambda: I.call(w.fn, args, kwargs, node), w.fn)
    if w.kind in ("vmap", "fvmap"):
        return do_vmap(I, w, args, kwargs, node)
    if w.kind in ("grad", "vgrad", "jac", "hess"):
        return do_grad(I, w, args, kwargs, node)
    return I.unk(node, "transformation " + w.kind, *args)


def mappable(I, v, filt):
    """does filter_vmap map this argument (arrays yes, static objects no)"""
    if not isinstance(v, Term) or v.op in ("fn", "lib", "opqfn", "meth", "cls"):
        return False
    if I.is_list(v) or I.is_dict(v):
        return True
    if v.op == "new":
        return False
    ty = I.typeof(v)
    if ty:
        return any("Module" in str(b) for b in ty[0].ext_bases())
    return T.rank(v) != 0


def do_vmap(I, w, args, kwargs, node):
    filt = w.kind == "fvmap"
    ia = w.opts.get("in_axes", "default" if filt else 0)
    if isinstance(ia, Term) and ia.op in ("lst", "tup", "arr"):
        ia = ia.args[0]
    if isinstance(ia, Term) and ia.op == "lib":
        ia = "default"
    if isinstance(ia, Term) and ia.op == "dct":
        return I.unk(node, "vmap in_axes", *args)
    axes = list(ia) if isinstance(ia, tuple) else [ia] * len(args)
    if len(axes) != len(args):
        return I.unk(node, "vmap in_axes do not match the arguments", *args)
    v = fresh("v", 0)
    ns = []

    def pick(x, ax):
        if ax is None:
            return x
        if isinstance(x, tuple):
            if isinstance(ax, tuple):
                return I_.like(x, [pick(p, q) for p, q in zip(x, ax)])
            return I_.like(x, [pick(p, ax) for p in x])
        if I.is_list(x):
            it = I.items(x)
            if any(isinstance(y, I_.Seg) for y in it):
                return pick(arr(I, x), ax)
            return I.new_list(tuple(pick(p, ax) for p in it))
        if I.is_dict(x):
            r = I.st.heap[x]
            return I.new_dict(tuple((p, pick(q, ax)) for p, q in r["#d"]), r["#base"])
        if ax == "default" or isinstance(ax, Term):
            if not mappable(I, x, True):
                return x
            ax = 0
        if not isinstance(x, Term):
            return x
        if x.op in ("fn", "lib", "opqfn", "meth") or (x.op == "new" and filt):
            return x
        ax = int(T.const_of(ax))
        if ax < 0:
            r = T.rank(x)
            if r is None:
                return I.unk(node, "negative vmap axis", x)
            ax += r
        if ax == 0:
            ns.append(T.length(x))
            e = T.elem(x, v)
        else:
            ns.append(mk("dim", x, ax) if T.dims(x) is None else T.dims(x)[ax])
            e = T.elem_axis(x, v, ax)
        ty = I.typeof(x)
        if ty and isinstance(e, Term) and not I.typeof(e):
            I_.TYPES[e] = ty
        return e
    inner = [pick(x, ax) for x, ax in zip(args, axes)]
    kw = {x: pick(y, "default" if filt else 0) for x, y in kwargs.items()}
    if not ns:
        n = w.opts.get("axis_size")
        if n is None:
            return I.unk(node, "vmap over nothing", *args)
    else:
        n = ns[0]
        # prefer a length that does not hide behind `len`
        for m in ns:
            if not (isinstance(m, Term) and m.op == "len"):
                n = m
                break
    r = I.traced("vmap", lambda: I.call(w.fn, inner, kw, node))
    oa = w.opts.get("out_axes", 0)
    if isinstance(oa, Term) and oa.op == "lib":
        oa = 0
    return lift(I, v, r, n, oa, node)


def lift(I, v, r, n, oa, node):
    if isinstance(r, tuple):
        oas = oa if isinstance(oa, tuple) else (oa,) * len(r)
        return I_.like(r, [lift(I, v, x, n, o, node) for x, o in zip(r, oas)])
    if I.is_list(r):
        return I.new_list(tuple(lift(I, v, x, n, oa, node) for x in I.items(r)))
    if I.is_dict(r):
        rec = I.st.heap[r]
        return I.new_dict(tuple((k, lift(I, v, x, n, oa, node)) for k, x in rec["#d"]), rec["#base"])
    if r is None or isinstance(r, str):
        return r
    if isinstance(r, Term) and r.op == "new":
        t = mk("comp", T.mk("bv", 1, 0), r, n)
        I.st.heap[t] = dict(I.st.heap[r])     # fields keep their per-item terms
        ty = I.typeof(r)
        if ty:
            I_.TYPES[t] = ty
        for f_, x in list(I.st.heap[t].items()):
            if not f_.startswith("#"):
                I.st.heap[t][f_] = lift(I, v, x, n, oa, node) if isinstance(x, (Term, tuple)) else x
        return t
    if not isinstance(r, (Term, bool, int, float, Fraction)):
        return r
    if T.const_of(oa) != 0:
        x = T.comp(v, r, n)
        if T.const_of(oa) == 1:
            return swap01(x)
        return I.unk(node, "vmap out_axes", x)
    return T.comp(v, I.freeze(r), n)


def do_grad(I, w, args, kwargs, node):
    an = w.opts.get("argnums", 0)
    if isinstance(an, tuple):
        if len(an) != 1:
            return I.unk(node, "grad argnums", *args)
        an = an[0]
    an = int(T.const_of(an) or 0)
    aux = w.opts.get("has_aux") is True
    if an >= len(args) or not (isinstance(args[an], Term) or is_num(args[an])):
        return I.unk(node, "gradient argument", *args)
    x0 = args[an]
    v = fresh("gx", T.rank(x0))
    ty = I.typeof(x0) if isinstance(x0, Term) else None
    if ty:
        I_.TYPES[v] = (ty[0], ty[1])
    d = T.dims(x0)
    if d is not None:
        T.LEN[v] = d
    if isinstance(x0, Term) and x0 in I.st.heap:
        I.st.heap[v] = dict(I.st.heap[x0])
    a2 = list(args)
    a2[an] = v
    ev0 = len(I.events)
    r = I.traced("grad", lambda: I.call(w.fn, a2, kwargs, node))
    val, ax = (r[0], r[1]) if aux and isinstance(r, tuple) else (r, None)
    del I.events[ev0:]
    # the value itself, at the real argument (also records the events)
    real = I.traced("grad", lambda: I.call(w.fn, args, kwargs, node))
    rv, ra = (real[0], real[1]) if aux and isinstance(real, tuple) else (real, None)
    val = I.freeze(val)
    op = {"jac": "jac", "hess": "hess"}.get(w.kind)
    if op:
        l = T.lam(v, val)
        g = mk(op, l, x0)
    else:
        g = T.grad(T.lam(v, val), x0)
    if isinstance(g, Term) and T.rank(x0) is not None and op is None:
        T.RANK.setdefault(g, T.rank(x0))
    if op == "jac":
        T.RANK[g] = 2
    if w.kind == "vgrad":
        return ((rv, ra), g) if aux else (rv, g)
    return (g, ra) if aux else g


# ------------------------------------------------------------------ lax control flow

def xs_len(I, xs):
    """(length, element function) of a scanned tree"""
    leaves = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif I.is_list(x) and not any(isinstance(y, I_.Seg) for y in I.items(x)):
            for y in I.items(x):
                go(y)
        elif I.is_dict(x) and isinstance(thaw_list(I, x), I_.Record):
            go(tuple(thaw_list(I, x)))
        elif isinstance(x, Term):
            leaves.append(x)
    go(xs)
    n = None
    for l in leaves:
        if l.op == "dyn":
            continue
        m = T.length(l)
        if n is None or (isinstance(n, Term) and n.op == "len"):
            n = m
    if n is None and leaves:
        n = T.length(leaves[0].args[0]) if leaves[0].op == "dyn" else T.length(leaves[0])
    return n


def xs_elem(I, xs, i):
    if isinstance(xs, tuple):
        return I_.like(xs, [xs_elem(I, x, i) for x in xs])
    if I.is_list(xs):
        it = I.items(xs)
        if any(isinstance(y, I_.Seg) for y in it):
            return T.elem(arr(I, xs), i)
        return I.new_list(tuple(xs_elem(I, x, i) for x in it))
    if xs is None:
        return None
    if I.is_dict(xs) and isinstance(thaw_list(I, xs), I_.Record):
        return refreeze(I, xs_elem(I, thaw_list(I, xs), i))
    if isinstance(xs, Term):
        e = T.elem(xs, i)
        ty = I.typeof(xs.args[0]) if xs.op == "dyn" else I.typeof(xs)
        return e
    return xs


@h("jax.lax.scan", "eqx.internal.scan")
def _scan(I, a, k, n):
    A = Args(I, a, k, "f init xs length reverse unroll", n)
    f, init, xs, length = A("f"), A("init"), A("xs"), A("length")
    rev = A("reverse", False)
    if rev not in (False, True, 0, 1):
        return I.unk(n, "scan direction", init)
    if isinstance(xs, (tuple,)) and not xs:
        xs = None
    cnt = xs_len(I, xs) if xs is not None else None
    if cnt is None or (isinstance(cnt, Term) and cnt.op == "len" and length is not None):
        cnt = length if length is not None else cnt
    if cnt is None:
        return I.unk(n, "scan length", init)
    c = T.const_of(cnt)
    if c is not None and c <= 8 and isinstance(xs, Term) and xs.op == "arr":
        outs = []
        carry = init
        order = range(int(c)) if not rev else reversed(range(int(c)))
        for i in order:
            r = I.traced("scan", lambda: I.call(f, [carry, xs_elem(I, xs, i)], {}, n), f)
            carry, y = pair(I, r, n)
            outs.append(y)
        if rev:
            outs.reverse()
        return carry, zip_tree(I, outs)
    st0 = I.st
    idx = fresh("i", 0)

    def run(vals, i):
        I.st = st0.fork()
        j = T.sub(T.sub(cnt, 1), i) if rev else i
        x = xs_elem(I, xs, j) if xs is not None else None
        r = I.traced("scan", lambda: I.call(f, [refreeze(I, vals), x], {}, n), f)
        return pair(I, r, n)
    init2 = thaw_list(I, init)
    fins, outs, stf = I.fix_loop(init2, lambda v, i: norm_pair(I, run(v, i)), idx, cnt)
    I.st = stf
    if rev:
        outs = flip_tree(I, outs, cnt)
    return refreeze(I, fins), refreeze(I, outs)


def norm_pair(I, p):
    return thaw_list(I, p[0]), thaw_list(I, p[1])


def thaw_list(I, v):
    """python lists -> tuples inside a carry"""
    if isinstance(v, tuple):
        return I_.like(v, [thaw_list(I, x) for x in v])
    if I.is_list(v) and not any(isinstance(x, I_.Seg) for x in I.items(v)):
        return tuple(thaw_list(I, x) for x in I.items(v))
    if I.is_dict(v):
        r = I.st.heap[v]
        d = r["#d"]
        if r["#base"] is None and d and not any(isinstance(x, I_.Seg) or not isinstance(x[0], str) for x in d):
            return I_.Record("dict", [k for k, _ in d], [thaw_list(I, x) for _, x in d])
    return v


def refreeze(I, v):
    """the inverse of thaw_list for dictionaries"""
    if isinstance(v, tuple):
        it = [refreeze(I, x) for x in v]
        if isinstance(v, I_.Record) and v.kind == "dict":
            return I.new_dict(tuple(zip(v.names, it)))
        return I_.like(v, it)
    return v


def flip_tree(I, v, cnt):
    if isinstance(v, tuple):
        return I_.like(v, [flip_tree(I, x, cnt) for x in v])
    if v is None:
        return None
    j = fresh("f", 0)
    return T.comp(j, T.elem(v, T.sub(T.sub(cnt, 1), j)), cnt)


def pair(I, r, n):
    it = I.items(r) if pyseq(I, r) else None
    if it is not None and len(it) == 2:
        return it[0], it[1]
    if isinstance(r, Term):
        return T.elem(r, 0), T.elem(r, 1)
    u = I.unk(n, "scan body result")
    return u, u


def zip_tree(I, outs):
    if not outs:
        return None
    f = outs[0]
    if isinstance(f, tuple):
        return I_.like(f, [zip_tree(I, [o[i] for o in outs]) for i in range(len(f))])
    if f is None:
        return None
    return mk("arr", tuple(I.freeze(o) for o in outs))


@h("collections.namedtuple")
def _namedtuple(I, a, k, n):
    names = a[1] if len(a) > 1 else k.get("field_names")
    names = names.replace(",", " ").split() if isinstance(names, str) else I.items(names)
    if names is None or not all(isinstance(x, str) for x in names):
        return I.unk(n, "namedtuple", a[0])
    return I_.Part(I_.Lib("flowlint.record"), [tuple(names)], {})


@h("flowlint.record")
def _record(I, a, k, n):
    names, vals = a[0], list(a[1:])
    vals += [k[x] for x in names[len(vals):] if x in k]
    if len(vals) != len(names):
        return I.unk(n, "namedtuple arguments", *vals)
    return I_.Record(None, names, vals)


@h("jax.lax.fori_loop")
def _fori(I, a, k, n):
    A = Args(I, a, k, "lower upper body_fun init_val", n)
    lo, hi, f, init = A("lower"), A("upper"), A("body_fun"), A("init_val")
    cnt = T.sub(hi, lo)
    st0 = I.st
    idx = fresh("i", 0)

    def run(vals, i):
        I.st = st0.fork()
        r = I.traced("scan", lambda: I.call(f, [T.add(lo, i), refreeze(I, vals)], {}, n), f)
        return thaw_list(I, r), ()
    fins, _, stf = I.fix_loop(thaw_list(I, init), run, idx, cnt)
    I.st = stf
    return refreeze(I, fins)


@h("jax.lax.while_loop")
def _while(I, a, k, n):
    A = Args(I, a, k, "cond_fun body_fun init_val", n)
    c, f, init = A("cond_fun"), A("body_fun"), thaw_list(I, A("init_val"))
    leaves, rb = I_.flatten_tree(init)
    st0 = I.st
    idx = fresh("i", 0)
    phis = [I._phi_for(x) for x in leaves]
    test = I.truth(I.call(c, [refreeze(I, rb(phis))], {}, n))
    nx = I.call(f, [refreeze(I, rb(phis))], {}, n)
    nl, _ = I_.flatten_tree(thaw_list(I, nx))
    cnt = None
    if isinstance(test, Term) and test.op in ("lt0", "le0") and len(nl) == len(phis):
        for p, q, x0 in zip(phis, nl, leaves):
            if not (isinstance(p, Term) and p.op == "var" and p in T.free_vars(test)):
                continue
            if not (isinstance(q, Term) or is_num(q)):
                continue
            step = T.sub(q, p)
            if isinstance(step, Term) and T.free_vars(step) & set(x for x in phis if isinstance(x, Term)):
                continue
            slope = T.const_of(T.sub(T.subst(test.args[0], {p: 1}), T.subst(test.args[0], {p: 0})))
            if slope is None or slope <= 0:
                continue
            hi = T.div(T.neg(T.subst(test.args[0], {p: 0})), slope)
            if test.op == "le0":
                hi = T.add(hi, 1)
            cnt = T.ceildiv(T.sub(hi, x0), step)
    if cnt is None:
        return I.unk(n, "while_loop without a counter", *leaves)

    def run(vals, i):
        I.st = st0.fork()
        return thaw_list(I, I.traced("scan", lambda: I.call(f, [refreeze(I, vals)], {}, n), f)), ()
    fins, _, stf = I.fix_loop(init, run, idx, cnt)
    I.st = stf
    return refreeze(I, fins)


@h("jax.lax.map")
def _lmap(I, a, k, n):
    xs = a[1]
    v = fresh("v", 0)
    cnt = xs_len(I, xs)
    r = I.traced("scan", lambda: I.call(a[0], [xs_elem(I, xs, v)], {}, n), a[0])
    return lift(I, v, r, cnt, 0, n)


@h("jax.lax.cond", "eqx.internal.cond")
def _cond(I, a, k, n):
    A = Args(I, a, k, "pred true_fun false_fun", n)
    ops = A.rest + ([k["operand"]] if "operand" in k else [])
    c = A("pred")
    return I.branch(c, lambda: I.traced("scan", lambda: I.call(A("true_fun"), ops, {}, n), A("true_fun")),
                    lambda: I.traced("scan", lambda: I.call(A("false_fun"), ops, {}, n), A("false_fun")))


@h("jax.lax.switch")
def _switch(I, a, k, n):
    A = Args(I, a, k, "index branches", n)
    bs = I.items(A("branches"))
    out = I.call(bs[-1], A.rest, {}, n)
    for j in reversed(range(len(bs) - 1)):
        out = I.select(T.cmp_eq(A("index"), j), I.call(bs[j], A.rest, {}, n), out)
    return out


@h("jax.lax.stop_gradient")
def _stopg(I, a, k, n):
    if getattr(I, "keep_stop", False) and isinstance(a[0], Term):
        t = mk("stop", a[0])
        ty = I.typeof(a[0])
        r = T.rank(a[0])
        if r is not None:
            T.RANK[t] = r
        return t
    return a[0]


@h("jax.lax.dynamic_slice_in_dim")
def _dsid(I, a, k, n):
    A = Args(I, a, k, "operand start_index slice_size axis", n)
    x = A("operand")
    ax = axis_of(x, A("axis", 0))
    if not isinstance(ax, int) or ax < 0:
        return mk("dsl", *[I.freeze(y) for y in (x, A("start_index"), A("slice_size"), ax)])
    return slice_ax(x, fitted(I, x, A("start_index"), A("slice_size"), ax), A("slice_size"), ax)


def fitted(I, x, lo, size, ax):
    """the start of a dynamic slice, moved back where the slice would run over the end"""
    y = x
    for _ in range(ax):
        y = T.elem(y, fresh("d", 0))
    L = T.length(y)
    if ints.overruns(lo, size, L, I.guards):
        return T.min_(lo, T.sub(L, size))
    return lo


def slice_ax(x, lo, size, ax):
    if ax == 0:
        return T.slice_(x, lo, 1, size)
    v = fresh("d", 0)
    return T.comp(v, slice_ax(T.elem(x, v), lo, size, ax - 1), T.length(x))


@h("jax.lax.slice_in_dim")
def _sid(I, a, k, n):
    A = Args(I, a, k, "operand start_index limit_index stride axis", n)
    x = A("operand")
    ax = axis_of(x, A("axis", 0))
    return I._aidx(x, [I_.SliceV(None, None, None)] * ax + [I_.SliceV(A("start_index"), A("limit_index"), A("stride"))], n)


@h("jax.lax.dynamic_index_in_dim")
def _diid(I, a, k, n):
    A = Args(I, a, k, "operand index axis keepdims", n)
    x = A("operand")
    ax = axis_of(x, A("axis", 0))
    r = T.elem_axis(x, A("index"), ax)
    if A("keepdims", True) is not False:
        return slice_ax(x, A("index"), 1, ax)
    return r


@h("jax.lax.dynamic_update_slice_in_dim")
def _dusid(I, a, k, n):
    A = Args(I, a, k, "operand update start_index axis", n)
    x = A("operand")
    t = mk("dus", x, I.freeze(A("update")), I.freeze(A("start_index")), axis_of(x, A("axis", 0)))
    r = T.rank(x)
    if r is not None:
        T.RANK[t] = r
    d = T.dims(x) if isinstance(x, Term) else None
    if d is not None:
        T.LEN[t] = d
    return t


@h("jax.lax.dynamic_update_index_in_dim")
def _duiid(I, a, k, n):
    A = Args(I, a, k, "operand update index axis", n)
    x = A("operand")
    if axis_of(x, A("axis", 0)) == 0:
        return T.set_rows(x, A("index"), A("update"))
    return I.unk(n, "dynamic_update_index_in_dim", x)


@h("jax.lax.dynamic_slice")
def _ds(I, a, k, n):
    starts, sizes = I.items(a[1]), I.items(a[2])
    x = a[0]
    if starts is None or sizes is None:
        return I.unk(n, "dynamic_slice", x)
    d = T.dims(x)
    for ax, (s, z) in enumerate(zip(starts, sizes)):
        if d is not None and same(d[ax], z):
            continue
        x = slice_ax(x, fitted(I, x, s, z, ax), z, ax)
    return x


@h("jax.lax.dynamic_update_slice")
def _dus(I, a, k, n):
    starts = I.items(a[2])
    if starts is None:
        return I.unk(n, "dynamic_update_slice", a[0])
    if len(starts) == 1 and isinstance(starts[0], I_.Seg):       # zeros but for one axis
        s = starts[0].items
        if len(s) == 1 and isinstance(s[0], Term) and s[0].op == "oneat" and s[0].args[0] is starts[0].idx \
                and T.const_of(s[0].args[3]) == 0:
            return _dusid(I, [a[0], a[1], s[0].args[2], s[0].args[1]], {}, n)
        if len(s) == 1 and T.const_of(s[0]) == 0:
            return _dusid(I, [a[0], a[1], 0, 0], {}, n)
    if any(isinstance(s, I_.Seg) for s in starts):
        return I.unk(n, "dynamic_update_slice", a[0])
    nz = [(ax, s) for ax, s in enumerate(starts) if T.const_of(s) != 0]
    if len(nz) > 1:
        return I.unk(n, "dynamic_update_slice", a[0])
    ax, s = nz[0] if nz else (0, 0)
    return _dusid(I, [a[0], a[1], s, ax], {}, n)


# ------------------------------------------------------------------ pytrees

@h("jax.tree.map")
def _treemap(I, a, k, n):
    f, t = a[0], a[1]
    if any(isinstance(x, I_.Seg) for x in a[1:]):
        if not I_.takes_run(f, 0):
            return I.unk(n, "tree.map over a run of trees")
        first = t.items[0] if isinstance(t, I_.Seg) else t
        if pyseq(I, first):
            cols = transpose(I, a[1:])
            if cols is None:
                return I.unk(n, "tree.map over a run of trees")
            r = I_.like(first, [_treemap(I, [f] + list(c), k, n) for c in I.items(cols)])
            return r if isinstance(first, tuple) else I.new_list(r)
        return I.call(f, list(a[1:]), {}, n)
    if len(a) == 2:
        if isinstance(t, Term) and not I.is_list(t) and not I.is_dict(t) and (I.typeof(t) or t.op in ("dyn",)):
            x = fresh("leaf")
            y = I.freeze(I.call(f, [x], {}, n))
            # the same rows of every leaf: those rows of the tree
            r = mk("flip", t, 0) if t.op == "dyn" and y is mk("flip", x, 0) else mk("treemap", T.lam(x, y), t)
            ty = I.typeof(t)
            if ty:
                I_.TYPES[r] = ty
            return r
        return tree_map(I, lambda x: I.call(f, [x], {}, n), t)
    if all(pyseq(I, x) for x in a[1:]):
        its = [I.items(x) for x in a[1:]]
        if len({len(i) for i in its}) == 1 and not any(isinstance(y, I_.Seg) for i in its for y in i):
            r = I_.like(t, [_treemap(I, [f] + list(row), k, n) for row in zip(*its)])
            return r if isinstance(t, tuple) else I.new_list(r)
    if all(isinstance(x, Term) and not I.is_list(x) and not I.is_dict(x) and not I.typeof(x) or is_num(x) for x in a[1:]):
        return I.call(f, list(a[1:]), {}, n)
    return I.unk(n, "tree.map over several trees", *a[1:])


@h("jax.tree.leaves", "jax.tree_util.tree_leaves", "jax.tree_leaves")
def _leaves(I, a, k, n):
    return mk("leaves", I.freeze(a[0]))


@h("eqx.is_array", "eqx.is_inexact_array", "eqx.is_array_like", "eqx.is_inexact_array_like")
def _isarr(I, a, k, n):
    return mk("isarray", I.freeze(a[0]))


@h("eqx.partition")
def _partition(I, a, k, n):
    A = Args(I, a, k, "pytree filter_spec", n)
    x = A("pytree")
    f = I.freeze(A("filter_spec"))
    if f is not mk("lib", "eqx.is_array"):
        # another filter splits elsewhere, but combine() still restores the tree
        pass
    if isinstance(x, Term):
        d, s = mk("dyn", x), mk("stat", x)
        return d, s
    return I.unk(n, "partition", x), I.unk(n, "partition", x)


@h("eqx.combine")
def _combine(I, a, k, n):
    if len(a) != 2:
        return I.unk(n, "combine", *a)
    r = T.combine(I.freeze(a[0]), I.freeze(a[1]))
    x = a[1].args[0] if isinstance(a[1], Term) and a[1].op == "stat" else (
        a[0].args[0] if isinstance(a[0], Term) and a[0].op in ("dyn", "stat") else None)
    if isinstance(r, Term) and x is not None and not I.typeof(r):
        ty = I.typeof(x)
        if ty:
            I_.TYPES[r] = ty
        if x in I_.ELEMTYPE:
            I_.ELEMTYPE[r] = I_.ELEMTYPE[x]
    return r


@h("eqx.filter")
def _filter(I, a, k, n):
    t = mk("filter", I.freeze(a[0]), I.freeze(a[1]))
    return t


@h("eqx.tree_at")
def _treeat(I, a, k, n):
    A = Args(I, a, k, "where pytree replace replace_fn", n)
    o = A("pytree")
    ev0 = len(I.events)
    if isinstance(o, Term):
        probe = fresh("where")
        ty = I.typeof(o)
        if ty:
            I_.TYPES[probe] = ty
        if o in I_.ELEMTYPE:
            I_.ELEMTYPE[probe] = I_.ELEMTYPE[o]
        path = I.call(A("where"), [probe], {}, n)
        del I.events[ev0:]
        if not isinstance(path, tuple) and not I.is_list(path):
            paths, vals = [path], [A("replace")]
        else:
            paths = list(I.items(path))
            vals = list(I.items(A("replace"))) if A("replace") is not None and pyseq(I, A("replace")) else []
        if A.has("replace_fn") and not A.has("replace"):
            vals = [I.call(A("replace_fn"), [I.call(I_.PyFn(lambda I2, aa, kk, nn, p=p: p, "p"), [], {}, n)], {}, n)
                    for p in paths]
            vals = [T.subst(v, {probe: o}) if isinstance(v, Term) else v for v in vals]
        out = o
        if len(vals) == len(paths):
            for p, v in zip(paths, vals):
                out = upd_path(I, out, o, probe, p, v)
                if out is None:
                    break
            if out is not None:
                return out
    return I.unk(n, "tree_at", I.freeze(o), I.freeze(A("replace")))


def upd_path(I, cur, o, probe, p, v):
    steps = []
    x = p
    while isinstance(x, Term) and x is not probe:
        if x.op == "attr":
            steps.append(("a", x.args[1]))
            x = x.args[0]
        elif x.op == "elem":
            steps.append(("e", x.args[1]))
            x = x.args[0]
        else:
            return None
    if x is not probe:
        return None
    steps.reverse()

    def go(obj, ss):
        if not ss:
            return v
        kind, nm = ss[0]
        if kind == "a":
            sub = I.get_attr(obj, nm, None) if len(ss) > 1 else None
            val = go(sub, ss[1:])
            t = mk("upda", obj, nm, I.freeze(val))
            ty = I.typeof(obj)
            if ty:
                I_.TYPES[t] = ty
            # stale copies of the same field do not matter
            if isinstance(obj, Term) and obj.op == "upda" and obj.args[1] == nm:
                t2 = mk("upda", obj.args[0], nm, I.freeze(val))
                if ty:
                    I_.TYPES[t2] = ty
                t = t2
            return t
        sub = I.index(obj, nm, None)
        return T.set_rows(obj, nm, I.freeze(go(sub, ss[1:])))
    return go(cur, steps)


@h("eqx.apply_updates", "optax.apply_updates")
def _apply(I, a, k, n):
    A = Args(I, a, k, "model updates", n)
    m, u = (A("model") if A.has("model") else k.get("params")), A("updates")
    t = mk("applyupd", I.freeze(m), I.freeze(u))
    ty = I.typeof(m)
    if ty:
        I_.TYPES[t] = ty
    r = T.rank(m)
    if r is not None:
        T.RANK[t] = r
    return t


@h("eqx.nn.Sequential")
def _seq(I, a, k, n):
    return arr(I, a[0])


@h("eqx.nn.Linear")
def _linear(I, a, k, n):
    A = Args(I, a, k, "in_features out_features use_bias dtype", n)
    t = mk("Linear", I.freeze(A("in_features")), I.freeze(A("out_features")), I.freeze(k.get("key")))
    I.st.heap[t] = {"in_features": A("in_features"), "out_features": A("out_features")}
    return t


@h("eqx.error_if", "eqx.debug.backward_nan", "jax.named_scope")
def _ident(I, a, k, n):
    return a[0] if a else None


@h("jax.tree_util.register_pytree_node_class")
def _regcls(I, a, k, n):
    return a[0]


def _ctor(kind):
    def f(I, a, k, n):
        return mk(kind, tuple(I.freeze(x) for x in a), tuple((x, I.freeze(v)) for x, v in sorted(k.items())))
    return f


for _n in ("optax.chain", "optax.adam", "optax.adamw", "optax.sgd", "optax.clip_by_global_norm", "optax.clip",
           "optax.scale", "optax.rmsprop", "optax.adabelief", "optax.scale_by_adam", "optax.add_decayed_weights",
           "optax.exponential_decay", "optax.cosine_decay_schedule", "optax.apply_if_finite", "optax.masked",
           "diffrax.Dopri5", "diffrax.Tsit5", "diffrax.Euler", "diffrax.Heun", "diffrax.SaveAt",
           "diffrax.PIDController", "diffrax.ConstantStepSize", "optax.lion", "optax.nadam", "diffrax.Dopri8",
           "optax.identity"):
    H[_n] = _ctor(_n)


@h("diffrax.ODETerm")
def _odeterm(I, a, k, n):
    o = I.new("ODETerm", fn=a[0])
    return o


@h("diffrax.diffeqsolve")
def _ode(I, a, k, n):
    A = Args(I, a, k, "terms solver t0 t1 dt0 y0 args saveat stepsize_controller", n)
    term = A("terms")
    f = I.st.heap.get(term, {}).get("fn") if isinstance(term, Term) else None
    if f is None:
        return I.unk(n, "diffeqsolve", I.freeze(A("y0")))
    y0 = A("y0")
    leaves, rb = I_.flatten_tree(thaw_list(I, y0))
    t = fresh("t", 0)
    ys = []
    for l in leaves:
        y = fresh("y", T.rank(l))
        d = T.dims(l) if isinstance(l, Term) else None
        if d is not None:
            T.LEN[y] = d
        ys.append(y)
    state = rb(ys)
    if I.is_list(y0):
        state = I.new_list(state)
    r = I.traced("scan", lambda: I.call(f, [t, state, A("args")], {}, n), f)
    fl, _ = I_.flatten_tree(thaw_list(I, r))
    body = mk("tup", tuple(I.freeze(x) for x in fl))
    l = body
    for y in reversed(ys):
        l = T.lam(y, l)
    l = T.lam(t, l)
    extra = tuple((x, I.freeze(v)) for x, v in sorted(list(A.d.items()) + list(A.extra.items()))
                  if x not in ("terms", "solver", "t0", "t1", "dt0", "y0", "args"))
    ode = mk("ode", l, I.freeze(A("solver")), I.freeze(A("t0")), I.freeze(A("t1")), I.freeze(A("dt0")),
             tuple(I.freeze(x) for x in leaves), extra)
    outs = []
    for j, x in enumerate(leaves):
        o = mk("odesol", ode, j)
        rk = T.rank(x)
        if rk is not None:
            T.RANK[o] = rk + 1
        outs.append(o)
    res = rb(outs)
    if I.is_list(y0):
        res = I.new_list(res)
    return I.new("Solution", ys=res)


# ------------------------------------------------------------------ methods

LISTM = {"append", "extend", "insert", "pop", "copy", "index", "count", "reverse", "clear", "remove", "sort"}


def call_method(I, obj, name, args, kwargs, node):
    if isinstance(obj, I_.Record):
        if name == "_replace":
            return I_.like(obj, [kwargs.get(k, v) for k, v in zip(obj.names, obj)])
        if name == "_asdict":
            return I.new_dict(tuple(zip(obj.names, obj)))
    if I.contract:
        r = I.contract(I, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if isinstance(obj, str) or (isinstance(obj, Term) and obj.op in ("str", "fmt")):
        return str_method(I, obj, name, args, kwargs, node)
    if isinstance(obj, tuple):
        if name in ("index", "count"):
            return I.unk(node, "tuple method", obj)
        return I.unk(node, f"tuple method {name}")
    if isinstance(obj, Term):
        if I.is_list(obj):
            return list_method(I, obj, name, args, kwargs, node)
        if name in ("update", "pop", "setdefault") and not I.is_dict(obj):
            I.as_dict(obj)
        if I.is_dict(obj) and name in ("items", "keys", "values", "get", "update", "pop", "copy", "setdefault"):
            return dict_method(I, obj, name, args, kwargs, node)
        if obj.op == "atidx":
            return at_method(I, obj, name, args, kwargs, node)
        ty = I.typeof(obj)
        if name in ("astype",) and not ty:
            return cast(I, obj, args[0] if args else kwargs.get("dtype"))
        if name in I_.ARRAY_METHODS and name != "get" and not ty:
            return array_method(I, obj, name, args, kwargs, node)
        if name in ("items", "keys", "values") and not ty:
            return mk({"items": "ditems", "keys": "dkeys", "values": "dvalues"}[name], obj)
        if name == "get" and not ty and args:
            k = args[0]
            e = mk("elem", obj, I.freeze(k))
            return T.sel(mk("in", I.freeze(k), obj), e, I.freeze(args[1]) if len(args) > 1 else None)
        if name == "lower" or name == "upper":
            return mk("str" + name, obj)
    elif is_num(obj) or isinstance(obj, bool):
        if name in ("astype", "item", "copy", "reshape", "sum", "mean", "all", "any", "squeeze", "min", "max"):
            return obj
    o = I.freeze(obj)
    raw, rest = positional(I, obj, name, args, kwargs)
    fa = bind(I, obj, name, args, kwargs)
    t = mk("mcall", o, name, fa)
    I.emit("app", node, fn=mk("meth", o, name), args=fa, term=t, raw=tuple(raw))
    hit = None
    ty = I.typeof(obj) if isinstance(obj, Term) else None
    n = declared_arity(ty[0] if ty else I.p.maybe_class(OPAQUE_SIGS.get(name, "")), name)
    if n:
        return tuple(mk("elem", t, k) for k in range(n))
    if ty:
        hit = ty[0].lookup(name)
        if hit and hit[1] == "method" and hit[2].returns is not None:
            I.annotate(t, hit[2].returns, hit[0].module)
    return t


# methods of objects of unknown class that are bound by the signature of the class declaring them
OPAQUE_SIGS = {"kernel": "ProposalBase"}
# and of objects of other packages (optax gradient transformations)
EXTERNAL_SIGS = {"update": ("updates", "state", "params"), "init": ("params",)}


def declared_arity(c, name):
    """length of the tuple class c says the method returns"""
    hit = c.lookup(name) if c else None
    r = hit[2].returns if hit and hit[1] == "method" else None
    if isinstance(r, ast.Subscript) and ast.unparse(r.value) in ("tuple", "Tuple") and isinstance(r.slice, ast.Tuple) \
            and not any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in r.slice.elts):
        return len(r.slice.elts)
    return None


def positional(I, obj, name, args, kwargs):
    """(positional arguments, keyword arguments left over) of a call to a known method"""
    ty = I.typeof(obj) if isinstance(obj, Term) else None
    c = ty[0] if ty else I.p.maybe_class(OPAQUE_SIGS.get(name, ""))
    hit = c.lookup(name) if c else None
    fa, kw = list(args), dict(kwargs)
    if c is None:
        return external(name, fa, kw)
    if hit and hit[1] == "method":
        ps = [p.arg for p in hit[2].args.posonlyargs + hit[2].args.args][1:]
        for p in ps[len(fa):]:
            if p in kw:
                fa.append(kw.pop(p))
            else:
                break
    return fa, kw


def external(name, args, kwargs):
    """positional form of a call to a method of an object of another package"""
    fa, kw = list(args), dict(kwargs)
    ps = EXTERNAL_SIGS.get(name, ())
    if kw and set(kw) <= set(ps):
        for p in ps[len(fa):]:
            if p not in kw:
                break
            fa.append(kw.pop(p))
    return fa, kw


def bind(I, obj, name, args, kwargs):
    """frozen positional form of a call to a known method"""
    fa, kw = positional(I, obj, name, args, kwargs)
    return tuple(I.freeze(x) for x in fa) + tuple(sorted((k, I.freeze(v)) for k, v in kw.items()))


def array_method(I, x, name, args, kwargs, node):
    if name == "reshape":
        s = shp(I, args[0]) if len(args) == 1 else tuple(args)
        return reshape(I, x, s, node)
    if name in ("copy", "view"):
        return x
    if name in ("item",):
        if isinstance(x, Term) and x.op == "elem" and isinstance(x.args[0], Term) and x.args[0].op == "npload":
            return mk("mcall", x, "item", ())
        return x
    if name == "tolist":
        return x
    if name in ("flatten", "ravel"):
        return reshape(I, x, (-1,), node)
    if name == "set" or name == "get":
        return mk("mcall", x, name, tuple(I.freeze(a) for a in args))
    f = H.get("jnp." + name)
    if f is None:
        return I.unk(node, f"array method {name}", x)
    return f(I, [x] + list(args), kwargs, node)


def at_method(I, o, name, args, kwargs, node):
    base, k = o.args
    if name == "get":
        return I.index(base, k, node)
    v = arr(I, args[0]) if args else None
    if name in ("add", "multiply", "mul", "divide", "min", "max", "power"):
        if isinstance(k, tuple) or (isinstance(k, Term) and k.op == "slicev"):
            return mk("at_" + name, base, k, v)
        old = T.elem(base, k)
        f = {"add": T.add, "multiply": T.mul, "mul": T.mul, "divide": T.div, "min": T.min_, "max": T.max_,
             "power": T.power}[name]
        return T.set_rows(base, k, f(old, v))
    if name != "set":
        return I.unk(node, f"at[].{name}", base)
    if isinstance(k, Term) and k.op == "slicev":
        lo, hi, st = k.args
        n = T.length(base)
        lo = 0 if lo is None else lo
        if T.const_of(hi) is not None and T.const_of(hi) < 0 and n is not None:
            hi = T.add(n, hi)
        if T.const_of(lo) is not None and T.const_of(lo) < 0 and n is not None:
            lo = T.add(n, lo)
        if (hi is None or not (T.const_of(hi) is not None and T.const_of(hi) < 0)) and (st is None or T.const_of(st) == 1) \
                and not (T.const_of(lo) is not None and T.const_of(lo) < 0):
            cnt = T.sub(n if hi is None else hi, lo)
            upd = v
            if T.rank(v) == 0:
                d = T.dims(base)
                upd = mk("full", (cnt,) + tuple(d[1:]), v) if d is not None else mk("full", (cnt,), v)
            elif isinstance(v, Term) and T.rank(v) == 1 and T.rank(base) == 1 and T.length(v) is None:
                T.LEN[v] = [cnt]
            t = mk("dus", base, upd, lo, 0)
        else:
            t = mk("setsl", base, k, v)
        for M in (T.RANK, T.LEN):
            if base in M:
                M[t] = M[base]
        if T.rank(base) is not None:
            T.RANK[t] = T.rank(base)
        if T.dims(base) is not None:
            T.LEN[t] = T.dims(base)
        return t
    if isinstance(k, tuple):
        t = mk("setmd", base, k, v)
    elif T.rank(k) == 0 or not isinstance(k, Term):
        t = T.set_rows(base, k, v)
    elif k.op == "arr" and 0 < len(k.args[0]) <= 4 and (T.rank(base) is not None and T.rank(v) is not None or own_rows(base, v)) \
            and all(T.const_of(T.sub(a, b)) not in (0, None) for i, a in enumerate(k.args[0]) for b in k.args[0][:i]):
        t = base                              # a few different rows
        for i, j in enumerate(k.args[0]):
            t = T.set_rows(t, j, T.elem(v, i) if own_rows(base, v) or T.rank(v) >= T.rank(base) else v)
    else:
        t = mk("scatter", base, k, v)
    if T.rank(base) is not None:
        T.RANK[t] = T.rank(base)
    if T.dims(base) is not None:
        T.LEN[t] = T.dims(base)
    return t


def own_rows(base, v):
    """v is rows of the array it is written to"""
    return isinstance(v, Term) and v.op == "comp" and isinstance(v.args[1], Term) and v.args[1].op == "elem" and v.args[1].args[0] is base


def str_method(I, s, name, args, kwargs, node):
    if isinstance(s, str):
        if name in ("startswith", "endswith") and isinstance(args[0], str):
            return getattr(s, name)(args[0])
        if name in ("lower", "upper", "strip", "title") and not args:
            return getattr(s, name)()
        if name == "format":
            return I.fstr((s,) + tuple(mk("fmt", I.freeze(a)) for a in args))
        if name == "join":
            it = I.items(args[0])
            if it is not None and all(isinstance(x, str) for x in it):
                return s.join(it)
            return mk("strjoin", s, I.freeze(args[0]))
        if name == "split" and all(isinstance(a, str) for a in args):
            return I.new_list(tuple(s.split(*args)))
        if name == "replace" and all(isinstance(a, str) for a in args):
            return s.replace(*args)
    return mk("mcall", s, name, tuple(I.freeze(a) for a in args))


def list_method(I, o, name, args, kwargs, node):
    it = I.st.heap[o]["#items"]
    if name == "append":
        I.st.setfield(o, "#items", tuple(it) + (args[0],))
        return None
    if name == "extend":
        v = args[0]
        src = I.items(v)
        if src is None:
            seq = I.iterate(v, node)
            if seq is None:
                src = (I_.Seg(fresh("i", 0), (I.unk(node, "extend", v),), fresh("n", 0)),)
            else:
                out = []
                for p in seq:
                    if p[0] == "item":
                        out.append(p[1])
                    elif isinstance(p[2], I_.Seg):
                        out.append(p[2])
                    else:
                        i = fresh("i", 0)
                        out.append(I_.Seg(i, (p[2](i),), p[1]))
                src = tuple(out)
        I.st.setfield(o, "#items", tuple(it) + tuple(src))
        return None
    conc = not any(isinstance(x, I_.Seg) or (isinstance(x, Term) and x.op == "seqphi") for x in it)
    if name == "insert" and (conc or T.const_of(args[0]) == 0):
        k = T.const_of(args[0])
        if k is not None:
            l = list(it)
            l.insert(int(k), args[1])
            I.st.setfield(o, "#items", tuple(l))
            return None
    if name == "pop" and conc:
        k = T.const_of(args[0]) if args else -1
        if k is not None and it:
            l = list(it)
            v = l.pop(int(k))
            I.st.setfield(o, "#items", tuple(l))
            return v
    if name == "copy":
        return I.new_list(it)
    if name == "reverse" and I_.plain(it) and not any(isinstance(x, Term) and x.op == "seqphi" for x in it):
        I.st.setfield(o, "#items", I_.turned(it))
        return None
    if name == "clear":
        I.st.setfield(o, "#items", ())
        return None
    if name == "index" and conc:
        for j, x in enumerate(it):
            if same(x, args[0]):
                return j
    if name == "remove" and conc:
        l = list(it)
        for j, x in enumerate(l):
            if same(x, args[0]):
                del l[j]
                I.st.setfield(o, "#items", tuple(l))
                return None
    u = I.unk(node, f"list method {name}")
    I.st.setfield(o, "#items", (u,))
    return u


def dict_method(I, o, name, args, kwargs, node):
    r = I.st.heap[o]
    d, base = r["#d"], r["#base"]
    if name in ("items", "keys", "values"):
        if base is None:
            f = {"items": lambda p: p, "keys": lambda p: p[0], "values": lambda p: p[1]}[name]
            return I.new_list(tuple(f(p) for p in d))
        return mk({"items": "ditems", "keys": "dkeys", "values": "dvalues"}[name], I.freeze(o))
    if name in ("get", "setdefault"):
        p = I_.find_pair(d, args[0])
        if p is not None:
            return p[0]
        dflt = args[1] if len(args) > 1 else kwargs.get("default")
        if base is None and not isinstance(args[0], Term):
            if name == "setdefault":
                I.set_item(o, args[0], dflt, node)
            return dflt
        e = mk("elem", base, I.freeze(args[0])) if base is not None else I.unk(node, "dict.get")
        return T.sel(mk("in", I.freeze(args[0]), base), e, I.freeze(dflt))
    if name == "update":
        src = args[0] if args else None
        pairs = list(kwargs.items())
        if src is not None:
            ps = I.pairs_of(src, node)
            if ps is None:
                I.emit("setitem", node, obj=o, key=None, value=I.freeze(src))
                I.st.setfield(o, "#base", mk("dupdate", I.freeze(o), I.freeze(src)))
                I.st.setfield(o, "#d", ())
                ps = []
            pairs = ps + pairs
        for p in pairs:
            if isinstance(p, I_.Seg):
                I.emit("setitem", node, obj=o, key=None, value=None)
                I.st.setfield(o, "#d", tuple(I.st.heap[o]["#d"]) + (p,))
            else:
                I.set_item(o, p[0], p[1], node)
        return None
    if name == "copy":
        return I.new_dict(d, base)
    if name == "pop":
        p = I_.find_pair(d, args[0])
        I.emit("setitem", node, obj=o, key=args[0], value=None)
        if p is not None:
            I.st.setfield(o, "#d", tuple((x, y) for x, y in d if not same(x, args[0])))
            return p[0]
        if len(args) > 1 and base is None:
            return args[1]
    return I.unk(node, f"dict method {name}", I.freeze(o))
