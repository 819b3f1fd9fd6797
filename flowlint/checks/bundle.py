"""A whole run: a bundle's resources and strategies driven by Sampler.sample, with symbolic
numbers of steps, loops, chains and dimensions. Local and global kernels, flow construction and
flow training are uninterpreted; everything between them is evaluated."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from ..project import ClassInfo
from . import keys, scen
from .base import txt, tainted, rel, relsite

T.SHAPES[("mcall", "train_loss")] = lambda t: [t.args[2][4]]


def bundles(ctx):
    B = ctx.p.find_class("ResourceStrategyBundle")
    return [C for C in ctx.p.subclasses(B) if C.lookup("__init__") and not ctx.p.is_abstract(C.lookup("__init__")[2])]


class Write:
    def __init__(self, e, production):
        self.e, self.obj, self.value, self.production = e, e.obj, e.value, production
        self.site = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
        self.loop = e.loops[0] if e.loops else None
        v = e.value
        self.slice = v.args if isinstance(v, Term) and v.op == "dus" else None


class Run:
    """one symbolic run of a bundle"""

    def __init__(self, ctx, C, prior=False):
        self.ctx, self.C = ctx, C
        self.where = ctx.where(C, "__init__")
        p = ctx.p
        under = keys.opaque_models(p)
        flows = {p.maybe_class("NFModel"), p.maybe_class("FlowMatchingModel")} - {None}
        prop, strat = p.find_class("ProposalBase"), p.find_class("Strategy")
        self.res, self.dicts = None, set()
        gs = p.maybe_class("NFProposal")

        def contract(I, obj, name, args, kw, node):
            if name == "__init__" and isinstance(obj, ClassInfo) and any(b in obj.mro() for b in flows):
                t = mk("mcall", T.sym("class:" + obj.name), "new",
                       tuple(I.freeze(a) for a in args) + tuple(I.freeze(v) for _, v in sorted(kw.items())))
                TYPES[t] = (obj, True)
                return t
            ty = I.typeof(obj) if isinstance(obj, Term) else None
            if name == "__call__" and ty and strat in ty[0].mro():
                d = kw.get("resources", args[1] if len(args) > 1 else None)
                if I.is_dict(d):
                    self.res = d
                    self.dicts.add(d)
                return under(I, obj, name, args, kw, node)
            if name == "kernel" and ty and prop in ty[0].mro():
                fa = list(args) + [kw[n] for n in ("rng_key", "position", "log_prob", "logpdf", "data")[len(args):] if n in kw]
                a = tuple(I.freeze(x) for x in fa)
                o = I.freeze(obj)
                # what the recorded points depend on beyond key and position is recorded in the event
                many = gs is not None and gs in ty[0].mro()      # all steps of a group in one call
                t = mk("mcall", T.sym("kernel:" + ty[0].name), "kernel",
                       a[:3] + (None, a[4]) if many and len(a) > 4 else a[:3])
                T.TUPLES[t.args[:2]] = (2, 1, 1) if many else (1, 0, 0)
                x = T.fresh("x", 1)
                ev = dict(fn=mk("meth", o, "kernel"), args=a, term=t, kernel=ty[0], x=x)
                ev["buffers"] = self.buffers(I)
                if len(fa) > 4:
                    ev["value"] = I.freeze(I.call(fa[3], [x, fa[4]], {}, None))
                if gs is not None and gs in ty[0].mro():
                    ev["used"] = I.freeze(I.get_attr(obj, "model", None))
                    ev["current"] = I.freeze(I.index(self.res, "model", None))
                I.emit("kernel", node, **ev)
                return tuple(mk("elem", t, k) for k in range(3))
            if name == "train" and ty and any(b in ty[0].mro() for b in flows):
                names = ("rng", "data", "optim", "state", "num_epochs", "batch_size", "verbose")
                a = tuple(I.freeze(scen.argval(names, args, kw, k)) for k in range(6))
                o = I.freeze(obj)
                t = mk("mcall", o, "train", (a[0], a[3]))
                L = mk("mcall", o, "train_loss", (a[0], None, None, None, a[4]))
                m = mk("elem", t, 1)
                TYPES[m] = ty
                I.emit("train", node, model=o, args=a, term=t, buffers=self.buffers(I),
                       current=I.freeze(I.index(self.res, "model", None)))
                return (mk("elem", t, 0), m, mk("elem", t, 2), L)
            return under(I, obj, name, args, kw, node)

        I = self.I = Interp(p, contract=contract)
        init = C.lookup("__init__")[2]
        a = init.args
        names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        self.given = {}
        kw = {}
        for n in names:
            if n == "logprior" and not prior:
                continue                       # the default
            if n == "chain_batch_size" and ctx.tier != "thorough":
                kw[n] = 0                      # C09: invisible
                continue
            if n == "verbose":
                kw[n] = False
                continue
            kw[n] = T.sym(n)
        self.bundle = I.call(C, [], kw, None)
        self.res = I.get_attr(self.bundle, "resources", None)
        self.dicts.add(self.res)
        self.resources = dict(self.resource_items(I))
        self.initial = {nm: I.freeze(I.get_attr(b, "data", None)) for nm, b in self.resources.items() if self.is_buffer(b)}
        self.axis = {nm: I.freeze(I.get_attr(b, "cursor_dim", None)) for nm, b in self.resources.items() if self.is_buffer(b)}
        self.state = next((b for b in self.resources.values() if self.cls_of(b) == "State"), None)
        self.targets0 = self.targets()
        self.training0 = dict(self.I.st.heap.get(self.flagdict(), {}).get("#d", ())).get("training") if self.state is not None else None
        S = p.find_class("Sampler")
        s = self.sampler = I.call(S, [], {"n_dim": T.sym("n_dim"), "n_chains": T.sym("n_chains"), "rng_key": T.sym("rng_key"),
                                          "resource_strategy_bundles": self.bundle}, None)
        n0 = len(I.events)
        x = T.sym("initial_position")
        T.RANK[x] = 2
        I.call(I.get_attr(s, "sample", None), [x, T.sym("data")], {}, None)
        self.events = I.events[n0:]
        self.targets1 = self.targets()
        ctx.absorb(I)
        self.flags = [k for k, e in enumerate(self.events) if e.kind == "setitem" and e.key == "training" and e.obj is self.flagdict()]
        self.cut = self.flags[0] if len(self.flags) == 1 and self.events[self.flags[0]].value is False \
            and not self.events[self.flags[0]].loops else None
        self.names = {}
        for nm, b in self.resources.items():
            self.names.setdefault(b, nm)
        self.writes = {}
        for k, e in enumerate(self.events):
            if e.kind == "setattr" and e.name == "data" and e.obj in self.names and self.is_buffer(e.obj):
                self.writes.setdefault(self.names[e.obj], []).append(Write(e, self.cut is not None and k > self.cut))

    def buffers(self, I):
        out = {}
        for nm, b in self.resource_items(I):
            ty = I.typeof(b) if isinstance(b, Term) else None
            if ty and ty[0].name == "Buffer":
                out[nm] = I.freeze(I.get_attr(b, "data", None))
        return out

    def resource_items(self, I):
        d = I.st.heap.get(self.res, {})
        out = {}
        for k, v in d.get("#d", ()):
            if isinstance(k, str):
                out[k] = v
        return list(out.items())

    def cls_of(self, b):
        ty = self.I.typeof(b) if isinstance(b, Term) else None
        return ty[0].name if ty else None

    def is_buffer(self, b):
        return self.cls_of(b) == "Buffer"

    def flagdict(self):
        return self.I.get_attr(self.state, "data", None)

    def targets(self):
        out = {}
        for k, v in self.I.st.heap.get(self.flagdict(), {}).get("#d", ()) if self.state is not None else ():
            if isinstance(k, str) and isinstance(v, str):
                out[k] = v
        return out

    def production(self, e):
        return self.cut is not None and self.events.index(e) > self.cut


def runs(ctx, prior=False):
    for C in bundles(ctx):
        if prior and not any(a.arg == "logprior" for a in C.lookup("__init__")[2].args.args):
            continue
        k = (C, prior)
        if k not in ctx.cache:
            ctx.cache[k] = Run(ctx, C, prior)
        yield ctx.cache[k]


def strip(t):
    while isinstance(t, Term) and t.op == "cast":
        t = t.args[0]
    return t


def along(t, axis):
    """number of entries of an array along an axis"""
    t = strip(t)
    for _ in range(int(axis)):
        t = strip(T.elem(t, T.fresh("q", 0)))
    return T.length(t)


# ------------------------------------------------------------------ C10

def c10(ctx):
    for r in runs(ctx):
        filled(ctx, r, lambda s, r=r: f"C10.{s}[{r.C.name}]")


def filled(ctx, r, R):
    w = r.where
    if r.cut is None or not r.targets0:
        ctx.und(R("phases"), w, "the training and production phases were not recognised (see C11)")
        return
    role = {}
    for t in (r.targets0, r.targets1):
        for k, nm in t.items():
            role.setdefault(k, []).append(nm)
    pos = next((k for k in role if "position" in k), None)
    if pos is None:
        ctx.und(R("roles"), w, "no position target in the sampler state")
        return
    for ph, nm in enumerate(role[pos]):
        phase = ("training", "production")[ph]
        sl = sequence(ctx, r, R, w, nm, phase)
        if sl is None:
            continue
        for k in role:
            if k == pos:
                continue
            other = role[k][ph]
            ws = r.writes.get(other, [])
            if not ws:
                ctx.bad(R(f"written.{phase}.{k}"), w, f"nothing is ever written to {other}")
                continue
            full = len(ws) == len(sl)
            used = []
            for x in ws:
                if x.slice is None:
                    ctx.und(R(f"write.{phase}.{k}"), x.site, f"write to {other} not recognised: {txt(x.value, 200)}")
                    continue
                hit = next((p for p in sl if p not in used and p.loop == x.loop and T.same(p.slice[2], x.slice[2])
                            and T.same(along(p.slice[1], 1), along(x.slice[1], 1))), None)
                if hit is not None:
                    used.append(hit)
                ctx.true(R(f"beside.{phase}.{k}"), x.site, hit is not None,
                         f"the rows of {other} are those of the positions of the same steps", x.slice[2],
                         *[p.slice[2] for p in sl])
            n0, n1 = (along(r.initial[q], 1) for q in (nm, other))
            ctx.same(R(f"length.{phase}.{k}"), w, n1, n0, f"{other} has as many rows as {nm}")
            if "log_prob" in k:
                ctx.true(R(f"every.{phase}.{k}"), w, full, f"every recorded position has its row in {other}")
        accs = [x for k in role if "acc" in k for x in r.writes.get(role[k][ph], [])]
        missing = [p for p in sl if not any(x.slice and x.loop == p.loop and T.same(x.slice[2], p.slice[2]) for x in accs)]
        ctx.true(R(f"flags.{phase}"), w, not missing, "every recorded position has its acceptance flag in one of the acceptance buffers")
    for nm, t in r.initial.items():
        if nm in r.writes and nm != "temperatures":
            cell = t
            while isinstance(cell, Term) and T.rank(cell):
                cell = T.elem(cell, T.fresh("q", 0))
            ctx.true(R(f"empty.{nm}"), w, isinstance(cell, Term) and txt(cell) in ("-inf()", "-inf") or T.same(cell, T.neg(mk("inf"))),
                     "a buffer is filled with -inf until it is written", cell)
    losses(ctx, r, R, w)


def losses(ctx, r, R, w):
    """whatever buffer receives training losses is filled from start to end"""
    for nm, ws in r.writes.items():
        if any(x.slice and any(u.op == "mcall" and u.args[1] == "train_loss" for u in top_values(x.slice[1])) for x in ws):
            fill_check(ctx, R, w, nm, "losses", ws, r.initial[nm], r.axis[nm])


def top_values(t):
    t = strip(t)
    return [t] if isinstance(t, Term) else []


def sequence(ctx, r, R, w, nm, phase):
    ws = r.writes.get(nm, [])
    if not ws:
        ctx.bad(R(f"written.{phase}"), w, f"nothing is ever written to {nm}")
        return None
    return fill_check(ctx, R, w, nm, phase, ws, r.initial[nm], r.axis[nm])


def fill_check(ctx, R, w, nm, phase, ws, init, axis):
    """the writes are consecutive, disjoint and end at the end of the buffer"""
    for x in ws:
        if x.slice is None:
            ctx.und(R(f"write.{phase}"), x.site, f"write to {nm} not recognised: {txt(x.value, 200)}")
            return None
        if len(x.e.loops) > 1:
            ctx.und(R(f"write.{phase}"), x.site, "write in a nested loop")
            return None
        ctx.same(R(f"axis.{phase}"), x.site, x.slice[3], axis, f"{nm} is written along its cursor axis")
    ax = T.const_of(axis)
    if ax is None:
        ctx.und(R(f"axis.{phase}"), w, "cursor axis is not a constant")
        return None
    for x in ws:
        a, b = T.rank(strip(x.slice[1])), T.rank(strip(init))
        ctx.true(R(f"kind.{phase}"), x.site, a is None or b is None or a == b,
                 f"what is written to {nm} has the shape of its rows", x.slice[1])
    cur = 0
    groups = []
    for x in ws:
        if groups and x.loop is not None and groups[-1][0] == x.loop:
            groups[-1][1].append(x)
        else:
            groups.append((x.loop, [x]))
    for loop, xs in groups:
        rows = [along(x.slice[1], ax) for x in xs]
        if any(m is None for m in rows):
            ctx.und(R(f"rows.{phase}"), xs[0].site, "number of rows written")
            return None
        step = T.addn(rows) if hasattr(T, "addn") else sum_terms(rows)
        at = cur
        if loop is not None:
            idx, n = loop
            if any(T.contains(m, idx) for m in rows if isinstance(m, Term)):
                ctx.und(R(f"rows.{phase}"), xs[0].site, "number of rows changes between loops")
                return None
            at = T.add(cur, T.mul(idx, step))
        for x, m in zip(xs, rows):
            ctx.same(R(f"consecutive.{phase}"), x.site, x.slice[2], at,
                     f"each write to {nm} starts where the previous one ended")
            at = T.add(at, m)
        cur = T.add(cur, T.mul(loop[1], step) if loop is not None else step)
    ctx.same(R(f"filled.{phase}"), w, cur, along(init, ax), f"the writes end exactly at the end of {nm}")
    return ws


def sum_terms(ts):
    s = 0
    for t in ts:
        s = T.add(s, t)
    return s


# ------------------------------------------------------------------ C11

def c11(ctx):
    for r in runs(ctx):
        R = lambda s: f"C11.{s}[{r.C.name}]"
        w = r.where
        if r.state is None:
            ctx.und(R("state"), w, "no State resource")
            continue
        fl = [e for k, e in enumerate(r.events) if k in r.flags]
        ctx.true(R("flag.start"), w, r.training0 is True, "a run starts in the training phase")
        ctx.true(R("flag.once"), w, r.cut is not None, "the training flag is cleared exactly once, between the training and the production loops")
        if r.cut is None:
            continue
        ctx.true(R("targets"), w, set(r.targets0) == set(r.targets1) and bool(r.targets0) and
                 all(r.targets1[k] != v for k, v in r.targets0.items()) and
                 not set(r.targets0.values()) & set(r.targets1.values()) and
                 all(v in r.resources and r.is_buffer(r.resources[v]) for v in list(r.targets0.values()) + list(r.targets1.values())),
                 "every recording target moves from a training buffer to a different production buffer")
        same_role = {k: (r.initial.get(v), r.initial.get(r.targets1.get(k))) for k, v in r.targets0.items()}
        for k, (a, b) in same_role.items():
            ctx.true(R(f"targets.shape.{k}"), w, a is not None and b is not None and T.rank(a) == T.rank(b),
                     "the production buffer of a target has the kind of rows its training buffer has")
        tr, pr = set(r.targets0.values()), set(r.targets1.values())
        for nm, ws in r.writes.items():
            for x in ws:
                if nm in tr:
                    ctx.true(R("training-only"), x.site, not x.production, f"{nm} is written during training only")
                elif nm in pr:
                    ctx.true(R("production-only"), x.site, x.production, f"{nm} is written during production only")
        trains = [e for e in r.events if e.kind == "train"]
        ctx.true(R("train.some"), w, bool(trains), "the flow is trained")
        for e in trains:
            s = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
            ctx.true(R("train.phase"), s, not r.production(e), "the flow is trained during training only")
            pos = next((v for k, v in r.targets0.items() if "position" in k), None)
            rows = e.args[1]
            src = e.buffers.get(pos)
            ctx.true(R("train.data"), s, src is not None and isinstance(rows, Term) and T.contains(rows, src),
                     f"the flow is trained on the positions recorded so far ({pos})", rows)
            ctx.same(R("train.model"), s, e.model, e.current, "the flow trained is the model resource")
        for e in r.events:
            if not r.production(e):
                continue
            s = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
            if e.kind == "kernel" and "used" in e.__dict__:
                fv = T.free_vars(e.used) if isinstance(e.used, Term) else set()
                ctx.true(R("frozen.model"), s, not fv, "the flow does not change between production loops", e.used)
            if e.kind == "setitem" and e.obj in r.dicts and isinstance(e.key, str):
                nm = e.key
                if nm in ("model", "optimizer") or r.cls_of(r.resources.get(nm)) in ("Optimizer",):
                    v = r.I.freeze(e.value)
                    ctx.true(R(f"frozen.{nm}"), s, not (T.free_vars(v) if isinstance(v, Term) else ()), f"{nm} is not replaced in production", v)
            if e.kind == "setattr" and e.name == "optim_state":
                ctx.bad(R("frozen.optimizer"), s, "the optimizer state changes in production", r.I.freeze(e.value))


# ------------------------------------------------------------------ C12

def c12(ctx):
    for r in runs(ctx):
        R = lambda s: f"C12.{s}[{r.C.name}]"
        n = 0
        for e in r.events:
            if e.kind == "kernel" and "used" in e.__dict__:
                n += 1
                s = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
                ph = "production" if r.production(e) else "training"
                ctx.same(R(f"latest.{ph}"), s, e.used, e.current,
                         "the global step proposes from the model resource as it is at that moment")
                trained = isinstance(e.used, Term) and any(u.op == "mcall" and u.args[1] == "train" for u in T.walk(e.used))
                ctx.true(R(f"trained.{ph}"), s, trained, "and that model has been trained on this run's positions", e.used)
        if n == 0:
            ctx.und(R("global"), r.where, "no global step found")


# ------------------------------------------------------------------ C29

def c29_replicas(ctx):
    """the replicas of the hotter rungs start from points, not from the -inf an unwritten buffer holds"""
    for r in runs(ctx):
        R = lambda s: f"C29.{s}[{r.C.name}]"
        hot = []
        for e in r.events:
            if e.kind != "kernel" or e.__dict__.get("value") is None:
                continue
            _, ladders = at_one(e.value, r, e)
            if ladders:
                hot.append(e)
        if not hot:
            continue
        recorded = set(r.targets0.values()) | set(r.targets1.values())
        for nm, t in r.initial.items():
            if len(dims(t)) != 3 or nm in recorded or nm not in hot[0].buffers:
                continue
            ws = [x for x in r.writes.get(nm, []) if r.events.index(x.e) < r.events.index(hot[0])]
            v = r.I.freeze(ws[0].value) if ws else t
            if ws and ws[0].slice and T.same(ws[0].slice[2], 0):
                v = ws[0].slice[1]         # positions are n_dims long, as the rows of the buffer are
            for _ in range(3):
                v = T.elem(v, T.fresh("q", 0))
            outside = bool(ws) and ws[0].loop is None
            ctx.true(R("replicas"), ws[0].site if ws else r.where,
                     outside and not any(u.op == "inf" for u in T.walk(v) if isinstance(u, Term)),
                     f"{nm} is filled with points before the first tempered step", v)


def at_one(v, r, e):
    """v with every entry of the temperature ladder replaced by one"""
    ladders = [t for nm, t in e.buffers.items() if len(dims(r.initial[nm])) == 1 and T.contains(v, t)]
    return T.expand(v, lambda u: 1 if u.op == "elem" and u.args[0] in ladders else None), ladders


def dims(t):
    n = 0
    while isinstance(t, Term) and T.rank(t):
        t, n = T.elem(t, T.fresh("q", 0)), n + 1
    return [None] * n


def c29(ctx):
    for r in runs(ctx):
        shared(ctx, r, "")
    for r in runs(ctx, prior=True):
        shared(ctx, r, ".prior")


def shared(ctx, r, tag):
    R = lambda s: f"C29.{s}{tag}[{r.C.name}]"
    x = T.fresh("x", 1)
    F, P, D = T.sym("logpdf"), T.sym("logprior"), T.sym("data")
    seen = []
    for e in r.events:
        if e.kind != "kernel":
            continue
        s = f"{relsite(e.site)} ({'.'.join(e.func.split('.')[-2:])})"
        v = e.__dict__.get("value")
        if v is None:
            ctx.und(R("target"), s, "no density is passed to the kernel")
            continue
        v = T.subst(v, {e.x: x})
        w, ladders = at_one(v, r, e)
        seen.append((w, s, ("tempered " if ladders else "") + e.kernel.name))
        base, prior = mk("app", F, (x, D)), mk("app", P, (x, D))
        if ladders:
            k = next((u for u in T.walk(v) if u.op == "elem" and u.args[0] in ladders), None)
            want = T.mul(T.power(k, -1), base)
            ctx.same(R("tempered"), s, v, T.add(want, prior) if tag else want,
                     "a tempered step targets log-density / temperature" + (" + log-prior" if tag else ""))
        else:
            ctx.true(R("density"), s, T.same(v, base) or bool(tag) and T.same(v, T.add(base, prior)),
                     "a step targets the caller's density on the caller's data", v, base)
    if not seen:
        ctx.und(R("target"), r.where, "no kernel step found")
        return
    groups = []
    for w, s, name in seen:
        g = next((g for g in groups if T.same(g[0], w)), None)
        if g is None:
            groups.append(g := (w, set(), s))
        g[1].add(name)
    what = " / ".join(sorted("+".join(sorted(g[1])) for g in groups))
    where = r.where if len(groups) == 1 else f"{r.where.rsplit(')', 1)[0]}: {what})"
    if len(groups) == 1:
        ctx.ok(R("target"), r.where, f"all {len(seen)} kernel steps target the same density at temperature one")
    for w, _, s in groups[1:]:
        ctx.same(R("target"), where, w, groups[0][0],
                 f"at temperature one the step at {s} targets the same density as the one at {groups[0][2]}")
    for nm, t in r.initial.items():
        if len(dims(t)) == 1 and "temperature" in nm:
            ctx.same(R("cold"), r.where, T.elem(t, 0), 1, "the first rung of the ladder is at temperature one")
