"""Does x[lo : lo + size] stay inside an array of length L?  (lax.dynamic_slice moves a slice that does not.)

Only index arithmetic is decided: polynomials, (ceil/floor) division, min and max over sizes that are at least one and loop
counters between zero and the trip count, under the conditions of the branches around it."""
from itertools import product

from . import terms as T

Term = T.Term
COUNT = {}                      # loop counter -> trip count


def counter(v, n):
    if isinstance(v, Term) and n is not None:
        COUNT[v] = n


class Unknown(Exception):
    pass


def leaves(t, out):
    if not isinstance(t, Term):
        if T.const_of(t) is None:
            raise Unknown
        return
    if t.op in ("poly",):
        for m, _ in t.args[0]:
            for a, e in m:
                if e < 0 or e.denominator != 1:
                    raise Unknown
                leaves(a, out)
    elif t.op in ("floordiv", "ceildiv", "mod"):
        leaves(t.args[0], out)
        leaves(t.args[1], out)
    elif t.op in ("min", "max"):
        for a in t.args[0]:
            leaves(a, out)
    elif (t.op == "bv" or t.op == "var" and "#" in t.args[0]) and t not in COUNT:
        raise Unknown
    elif t.op in ("sel", "unk", "cast", "rnd", "elem"):
        if t.op == "elem" and isinstance(t.args[1], str):
            out.add(t)          # a named number
            return
        raise Unknown
    else:
        out.add(t)


def value(t, env):
    if not isinstance(t, Term):
        return T.const_of(t)
    if t in env:
        return env[t]
    if t.op == "poly":
        s = 0
        for m, c in t.args[0]:
            p = c
            for a, e in m:
                p *= value(a, env) ** int(e)
            s += p
        return s
    if t.op in ("floordiv", "ceildiv", "mod"):
        a, b = value(t.args[0], env), value(t.args[1], env)
        if b == 0:
            raise Unknown
        return a // b if t.op == "floordiv" else -((-a) // b) if t.op == "ceildiv" else a % b
    if t.op in ("min", "max"):
        return (min if t.op == "min" else max)(value(a, env) for a in t.args[0])
    raise Unknown


def truth(c, env):
    """of a condition; None if it is not about these numbers"""
    if isinstance(c, bool):
        return c
    if not isinstance(c, Term):
        return None
    try:
        if c.op == "lt0":
            return value(c.args[0], env) < 0
        if c.op == "le0":
            return value(c.args[0], env) <= 0
        if c.op == "eq0":
            return value(c.args[0], env) == 0
        if c.op == "not":
            r = truth(c.args[0], env)
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [truth(x, env) for x in c.args[0]]
            if (c.op == "or") in rs:
                return c.op == "or"
            return None if None in rs else c.op == "and"
    except (Unknown, TypeError, AttributeError):
        pass
    return None


def overruns(lo, size, L, guards):
    """True: for some sizes the slice does not fit; False: it fits for all small sizes; None: cannot tell"""
    base, rest = set(), set()
    try:
        leaves(L, base)
        for t in (lo, size):
            leaves(t, rest)
        counters = {v for v in base | rest if v in COUNT}
        todo = list(counters)
        while todo:
            v = todo.pop()
            more = set()
            leaves(COUNT[v], more)
            todo += [u for u in more if u in COUNT and u not in counters]
            counters |= {u for u in more if u in COUNT}
            rest |= more
    except (Unknown, AttributeError):
        return None
    nums = sorted((base | rest) - counters, key=lambda t: t.uid)
    if len(nums) > 3 or len(counters) > 2 or not base <= rest:
        return None                       # sizes that nothing relates to one another
    cs = sorted(counters, key=lambda t: t.uid)
    seen = False
    for vals in product(range(1, 7), repeat=len(nums)):
        env = dict(zip(nums, vals))

        def go(k):
            nonlocal seen
            if k == len(cs):
                if any(truth(g, env) is False for g in guards):
                    return False
                z, l, a = value(size, env), value(L, env), value(lo, env)
                if z > l or z < 0 or a < 0:
                    return False
                seen = True
                return a + z > l
            n = value(COUNT[cs[k]], env)
            for j in range(int(n)):
                env[cs[k]] = j
                if go(k + 1):
                    return True
            env.pop(cs[k], None)
            return False
        try:
            if go(0):
                return True
        except (Unknown, TypeError):
            return None
    return False if seen else None
