"""Training: the epoch loop, the minibatch loop and the gradient step of every flow, and the
training strategy around them."""
from .. import ints, terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from . import keys, flows, scen
from .flows import SELF
from .base import txt, tainted

RNG, DATA, OPTIM, STATE = T.sym("rng"), T.sym("data"), T.sym("optim"), T.sym("state")
TRIPLE = (T.sym("data_x0"), T.sym("data_x1"), T.sym("data_t"))
EPOCHS, BATCH = T.sym("num_epochs"), T.sym("batch_size")


def joint(fins):
    """one recurrence for several loop results: (variables of each result, {var: (init, next)}, index, n)

    Carried values of the different loops are merged when they start and evolve alike."""
    n = fins[0].args[0].args[5]
    idx = T.fresh("i", 0)
    slots = []
    for f in fins:
        lp, k = f.args
        if not T.same(lp.args[5], n) or lp.args[6] != fins[0].args[0].args[6]:
            return None
        slots.append((lp, k))
    items = [(a, q) for a, (lp, _) in enumerate(slots) for q in range(len(lp.args[0]))]
    cls = {}
    for it in items:
        lp = slots[it[0]][0]
        for c, members in cls.items():
            o = members[0]
            if T.same(slots[o[0]][0].args[1][o[1]], lp.args[1][it[1]]):
                members.append(it)
                break
        else:
            cls[T.fresh("c", T.rank(lp.args[0][it[1]]))] = [it]
    while True:
        var = {it: c for c, ms in cls.items() for it in ms}
        nxt = {}
        for it in items:
            lp = slots[it[0]][0]
            mp = {p: var[(it[0], q)] for q, p in enumerate(lp.args[0])}
            mp[lp.args[4]] = idx
            x = lp.args[2][it[1]]
            nxt[it] = T.subst(x, mp) if isinstance(x, Term) else x
        new, split = {}, False
        for c, ms in cls.items():
            groups = []
            for it in ms:
                for g in groups:
                    if T.same(nxt[g[0]], nxt[it]):
                        g.append(it)
                        break
                else:
                    groups.append([it])
            if len(groups) > 1:
                split = True
            for j, g in enumerate(groups):
                new[c if j == 0 else T.fresh("c", T.rank(c))] = g
        cls = new
        if not split:
            break
    var = {it: c for c, ms in cls.items() for it in ms}
    rec = {c: (slots[ms[0][0]][0].args[1][ms[0][1]], nxt[ms[0]]) for c, ms in cls.items()}
    return [var[(a, k)] for a, (_, k) in enumerate(slots)], rec, idx, n


def recorded(x):
    """values collected over the iterations of a loop, as the loop that writes each of them in its place"""
    if not (isinstance(x, Term) and x.op == "comp"):
        return x
    v, b, n = x.args
    idx = T.fresh("i", 0)
    b = T.subst(b, {v: idx}) if isinstance(b, Term) else b
    olds = {u.args[0] for u in T.walk(b) if u.op == "pre" and u.args[2] is idx} if isinstance(b, Term) else set()
    if not olds or any(not T.same(lp.args[5], n) or lp.args[6] for lp in olds):
        return x
    phis, inits, nexts, mp = [], [], [], {}
    for lp in olds:
        ps = {p: T.fresh("p", T.rank(p)) for p in lp.args[0]}
        at = dict(ps)
        at[lp.args[4]] = idx
        for k, p in enumerate(lp.args[0]):
            phis.append(ps[p])
            inits.append(lp.args[1][k])
            nexts.append(T.subst(lp.args[2][k], at) if isinstance(lp.args[2][k], Term) else lp.args[2][k])
            mp[mk("pre", lp, k, idx)] = ps[p]
    out = T.fresh("p", 1)
    at = T.subst(b, mp)
    if any(u.op == "pre" and u.args[2] is idx for u in T.walk(at)):
        return x
    lp = T.loop_term([out] + phis, [mk("full", (n,), 0)] + inits, [T.set_rows(out, idx, at)] + nexts, [], idx, n, False)
    return T.fin(lp, 0)


def opaque_methods(p, names, base):
    """the named methods of flows are uninterpreted functions of their arguments"""
    under = keys.opaque_models(p, trains=False)

    def contract(I, obj, name, args, kw, node):
        if name in names and isinstance(obj, Term):
            ty = I.typeof(obj)
            m = ty[0].lookup(name) if ty is not None else None
            if m is not None or obj is SELF or ty is None:
                ps = names[name]
                if m is not None:
                    ps = [a.arg for a in m[2].args.posonlyargs + m[2].args.args][1:]
                a = tuple(I.freeze(scen.argval(ps, args, kw, q)) for q in range(len(ps)))
                t = mk("mcall", I.freeze(obj), name, a)
                out = tuple(mk("elem", t, q) for q in range(3))
                T.RANK[out[0]] = 0
                TYPES.setdefault(out[1], (base, False))
                return out
        return under(I, obj, name, args, kw, node)
    return contract


def trainers(ctx):
    for base in ("NFModel", "FlowMatchingModel"):
        C = ctx.p.maybe_class(base)
        if C is not None and C.lookup("train"):
            yield C


def whitened(t):
    """(model without its data statistics, {attribute: value})"""
    out = {}
    while isinstance(t, Term) and t.op == "upda":
        out.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return t, out


def c17(ctx):
    for C in trainers(ctx):
        R = lambda s: f"C17.{s}[{C.name}]"
        train(ctx, C, R)
        roles = step(ctx, C, R)
        epoch(ctx, C, R, roles)


def data_of(C):
    """what the flow is trained on: a matrix of samples, or (base samples, samples, times)"""
    if C.name == "NFModel":
        T.RANK[DATA] = 2
        return DATA
    for d in TRIPLE:
        T.RANK[d] = 2
    return TRIPLE


def samples_of(C):
    d = data_of(C)
    return d[1] if isinstance(d, tuple) else d


def train(ctx, C, R):
    w = ctx.where(C, "train")
    con = opaque_methods(ctx.p, {"train_epoch": ("rng", "optim", "state", "data", "batch_size")}, C)
    D = data_of(C)
    I, s, r = keys.run_method(ctx, C, "train", ("rng", "data", "optim", "state", "num_epochs", "batch_size", "verbose"),
                              [("num_epochs", 0), ("batch_size", 0)], contract=con, given={"data": D})
    if not isinstance(r, tuple) or len(r) != 4:
        ctx.und(R("train"), w, "train does not return four values")
        return
    r = [I.freeze(x) for x in r]
    r[3] = recorded(r[3])
    if any(tainted(x) is not None for x in r):
        ctx.und(R("train"), w, f"depends on an unmodelled construct: {[tainted(x).args[0] for x in r if tainted(x)][0]}")
        return
    if any(not (isinstance(x, Term) and x.op == "fin") for x in r[1:]):
        ctx.und(R("train"), w, "model, state and losses are not results of one loop over epochs")
        return
    J = joint(r[1:])
    if J is None:
        ctx.und(R("train"), w, "model, state and losses come from different loops")
        return
    (BM, BS, LV), rec, i, n = J
    ctx.same(R("epochs"), w, n, EPOCHS, "num_epochs epochs are run")
    nm, ns, nl = rec[BM][1], rec[BS][1], rec[LV][1]
    if not (isinstance(nl, Term) and nl.op == "setax"):
        ctx.bad(R("losses"), w, "the loss of each epoch is not recorded at its place", nl)
        return
    L = nl.args[2]
    ctx.same(R("losses"), w, (nl.args[0], nl.args[1]), (LV, i), "the loss of epoch k is recorded at place k")
    if not (isinstance(nm, Term) and nm.op == "sel" and isinstance(ns, Term) and ns.op == "sel"):
        kept = not (isinstance(nm, Term) and nm.op == "sel") and not (isinstance(ns, Term) and ns.op == "sel")
        if kept:
            ctx.bad(R("best"), w, "the returned model and state are the last, not the best", nm)
        else:
            ctx.bad(R("best"), w, "the returned model and optimizer state are not kept together", (nm, ns))
        return
    c = nm.args[0]
    ctx.same(R("best.together"), w, ns.args[0], c, "model and optimizer state are kept from the same epoch")
    cc, flip = c, False
    while isinstance(cc, Term) and cc.op == "not":
        cc, flip = cc.args[0], not flip
    M, keep = (nm.args[2], nm.args[1]) if flip else (nm.args[1], nm.args[2])
    S, keeps = (ns.args[2], ns.args[1]) if flip else (ns.args[1], ns.args[2])
    # the condition compares this epoch's loss with the least so far
    bl = [v for v in rec if T.contains(c, v) and isinstance(rec[v][1], Term) and rec[v][1].op == "sel"
          and v not in (BM, BS)]
    d = cc.args[0] if isinstance(cc, Term) and cc.op in ("lt0", "le0") else None
    if d is not None and not bl and not any(T.contains(d, v) and T.contains(v, L) for v in rec):
        ctx.bad(R("best.condition"), w, "an epoch's loss is not compared with the least loss so far", c)
        return
    if d is None or len(bl) != 1:
        ctx.und(R("best.condition"), w, f"selection condition {txt(c, 200)}")
        return
    B = bl[0]
    want = T.sub(L, B) if not flip else T.sub(B, L)
    good = same_sign(d, want)
    # NaN losses are never the best: the accepting comparison must be the direct one
    ctx.true(R("best.condition"), w, good and not flip, "an epoch is kept exactly when its recorded loss is below the least loss so far", c)
    nb = rec[B][1]
    ctx.same(R("best.loss"), w, nb, T.sel(c, L, B), "the least loss is updated together with the model and state kept")
    ctx.same(R("best.keep"), w, (keep, keeps), (BM, BS), "otherwise the model and state kept so far stay")
    start = T.const_of(rec[B][0])
    ctx.true(R("best.start"), w, start is not None and start >= 1e6 or rec[B][0] is T.INF, "the least loss starts high", rec[B][0])
    calls = [u for u in T.walk(M) if u.op == "mcall" and u.args[1] == "train_epoch"]
    if len(calls) != 1:
        ctx.und(R("epoch"), w, "one epoch is not one call of train_epoch")
        return
    e = calls[0]
    ps = [a.arg for a in C.lookup("train_epoch")[2].args.args][1:]
    got = dict(zip(ps, e.args[2]))
    ctx.same(R("epoch.outputs"), w, (L, M, S), tuple(mk("elem", e, q) for q in range(3)),
             "loss, model and state of an epoch come from the same call")
    cur = e.args[0]
    if cur in rec:
        ctx.same(R("epoch.model"), w, rec[cur][1], M, "each epoch continues from the model the previous one returned")
    else:
        ctx.bad(R("epoch.model"), w, "an epoch does not start from the model the previous epoch returned", cur)
    st = got.get("state")
    if st in rec:
        ctx.same(R("epoch.state"), w, (rec[st][1], rec[st][0]), (S, STATE),
                 "each epoch continues from the optimizer state the previous one returned, the first from the given one")
    else:
        ctx.bad(R("epoch.state"), w, "an epoch does not start from the optimizer state the previous epoch returned", st)
    ctx.same(R("epoch.arguments"), w, (got.get("optim"), got.get("data"), got.get("batch_size")), (OPTIM, D, BATCH),
             "every epoch trains on the given data with the given optimizer and batch size")
    if cur in rec:
        m0, st_ = whitened(rec[cur][0])
        d_ = samples_of(C)
        ctx.same(R("start"), w, m0, SELF, "training starts from the model itself")
        rows = T.length(d_)
        ctx.same(R("start.mean"), w, st_.get("_data_mean"), T.div(T.sum_(d_, 0), rows), "the whitening mean is the mean of the training data")
        cv = st_.get("_data_cov")
        ok = isinstance(cv, Term) and cv.op == "cov" and T.same(cv.args[0], T.transpose(d_))
        ctx.true(R("start.cov"), w, ok, "the whitening covariance is that of the training data", cv)
    ctx.same(R("best.init"), w, (whitened(rec[BM][0])[0], rec[BS][0]), (SELF, STATE),
             "when no epoch is kept, the given model and state are returned")


def same_sign(d, want):
    """d is a positive multiple of want"""
    if T.same(d, want):
        return True
    p, q = T.to_poly(d), T.to_poly(want)
    if set(p) != set(q) or not p:
        return False
    ks = {p[m] / q[m] for m in p}
    return len(ks) == 1 and ks.pop() > 0


def perm_index(ix):
    """(permutation draw, position) of an index perm[position]"""
    if isinstance(ix, Term) and ix.op == "elem" and isinstance(ix.args[0], Term) and ix.args[0].op == "rnd" \
            and ix.args[0].args[0] == "permutation":
        return ix.args[0], ix.args[1]
    return None


def unshuffled(ctx, R, w, ix):
    draws = [u for u in T.walk(ix) if isinstance(u, Term) and u.op == "rnd"] if isinstance(ix, Term) else []
    if not draws or any(u.args[0] in ("randint", "uniform", "normal") for u in draws):
        ctx.bad(R("batch"), w, "the rows of a minibatch are not picked by a random permutation", ix)
    else:
        ctx.und(R("batch"), w, f"rows of a minibatch are not picked by a permutation: {txt(ix, 160)}")


def whole(b, i, n, size):
    """the places up to size * (i + 1) of step i that certainly exist, i being one of n steps"""
    top = T.add(T.mul(size, i), size)
    if not isinstance(b, Term):
        return b
    ints.counter(i, n)
    cut = {u: top for u in T.walk(b) if u.op == "min" and any(T.same(q, top) for q in u.args[0])
           and all(T.same(q, top) or ints.overruns(top, 0, q, []) is False for q in u.args[0])}
    return T.subst(b, cut) if cut else b


def batch_rows(ctx, R, w, b, data, i, n):
    """the minibatch of step i: rows of data at distinct places of one permutation"""
    b = whole(b, i, n, BATCH)
    r = T.fresh("r", 0)
    row = T.elem(b, r)
    size = T.length(b)
    if not (isinstance(row, Term) and row.op == "elem" and row.args[0] is data):
        ctx.bad(R("batch"), w, "a minibatch does not consist of rows of the training data", row)
        return
    p = perm_index(row.args[1])
    if p is None:
        unshuffled(ctx, R, w, row.args[1])
        return
    perm, at = p
    ctx.same(R("batch.rows"), w, at, T.add(T.mul(size, i), r), "step k of an epoch takes rows k*size .. (k+1)*size-1 of the permutation: no row twice")
    ctx.same(R("batch.size"), w, size, BATCH, "a minibatch has batch_size rows")
    ctx.same(R("batch.permutation"), w, perm.args[3] if len(perm.args) > 3 else None, T.length(data), "the permutation runs over all training rows")


def epoch(ctx, C, R, roles):
    w = ctx.where(C, "train_epoch")
    for n_, k_ in (("_data_mean", 1), ("_data_cov", 2)):
        T.RANK.setdefault(T.attr(SELF, n_), k_)
    con = schedule(ctx.p, opaque_methods(ctx.p, {"train_step": ()}, C))
    I, s, r = keys.run_method(ctx, C, "train_epoch", ("rng", "optim", "state", "data", "batch_size"),
                              [("batch_size", 0)], contract=con, given={"data": data_of(C)})
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und(R("steps"), w, "train_epoch does not return three values")
        return
    r = [I.freeze(x) for x in r]
    if any(tainted(x) is not None for x in r):
        ctx.und(R("steps"), w, f"depends on an unmodelled construct: {[tainted(x).args[0] for x in r if tainted(x)][0]}")
        return
    D = data_of(C)
    steps = T.floordiv(T.length(D[0] if isinstance(D, tuple) else D), BATCH)
    full = [loopy(x, True) for x in r]
    if any(x is not None and x.op == "fin" for x in full) and not all(isinstance(x, Term) and any(u.op == "fin" for u in T.walk(x)) for x in full):
        ctx.bad(R("steps.outputs"), w, "loss, model and state returned are not all those of the last step", tuple(r))
        return
    if any(x is None or x.op != "fin" for x in full):
        ctx.und(R("steps"), w, f"no loop over minibatches: {txt(r[1], 200)}")
        return
    J = joint(full)
    if J is None:
        ctx.und(R("steps"), w, "loss, model and state come from different loops")
        return
    (LV, MV, SV), rec, i, n = J
    ctx.same(R("steps.count"), w, n, steps, "an epoch takes as many steps as there are whole batches")
    call = [u for u in T.walk(rec[MV][1]) if u.op == "mcall" and u.args[1] == "train_step"]
    if len(call) != 1:
        ctx.und(R("steps"), w, "one step is not one call of train_step")
        return
    e = call[0]
    ps = [a.arg for a in C.lookup("train_step")[2].args.args][1:]
    got = dict(zip(ps, e.args[2]))
    ctx.same(R("steps.outputs"), w, (rec[LV][1], rec[MV][1], rec[SV][1]), tuple(mk("elem", e, q) for q in range(3)),
             "loss, model and state of a step come from the same call")
    ctx.same(R("steps.chain"), w, (e.args[0], got.get("state"), rec[MV][0], rec[SV][0], got.get("optim")), (MV, SV, SELF, STATE, OPTIM),
             "each step continues from the model and optimizer state of the previous one")
    if roles is not None:
        xs = {q: got[n_] for q, n_ in roles.items()}
        if C.name == "NFModel":
            batch_rows(ctx, R, w, xs["x"], DATA, i, n)
        else:
            matching_batch(ctx, C, R, w, xs, i, n)
    short = [loopy(x, False) for x in r]
    calls = {u for x in short if isinstance(x, Term) for u in T.walk(x) if u.op == "mcall" and u.args[1] == "train_step"}
    if len(calls) == 1:
        e = calls.pop()
        got = dict(zip(ps, e.args[2]))
        ctx.same(R("short"), w, tuple(short), tuple(mk("elem", e, q) for q in range(3)), "with less than one batch of data, one step is taken")
        ctx.same(R("short.step"), w, (e.args[0], got.get("optim"), got.get("state")), (SELF, OPTIM, STATE), "it starts from the given model and state")
        if roles is not None:
            xs = {q: got[n_] for q, n_ in roles.items()}
            if C.name == "NFModel":
                ctx.same(R("short.data"), w, xs["x"], DATA, "it uses all the data")
            else:
                k = T.fresh("r", 0)
                g2 = {q: T.elem(v, k) for q, v in xs.items()}
                ix = same_rows(ctx, R, "short", w, g2)
                if ix is not None:
                    ctx.same(R("short.data"), w, (ix, T.length(xs["t"])), (k, T.length(TRIPLE[2])), "it uses all the data")
                    on_path(ctx, C, R, "short", w, g2, ix)
    else:
        ctx.und(R("short"), w, "no single step for less than one batch")


def loopy(x, yes):
    """the side of the top-level choice that has (not) the loop"""
    while isinstance(x, Term) and x.op == "sel":
        sides = [x.args[1], x.args[2]]
        hit = [any(u.op == "fin" for u in T.walk(q)) if isinstance(q, Term) else False for q in sides]
        if hit[0] == hit[1]:
            return x
        x = sides[hit.index(yes)]
    return x


PATH = ("path.alpha", "path.dalpha", "path.sigma", "path.dsigma")
T.ELEMENTWISE |= set(PATH)


def schedule(p, under):
    """the coefficients of a path are functions of the time, taken entry by entry"""
    base = p.maybe_class("Scheduler")

    def contract(I, obj, name, args, kw, node):
        if name == "__call__" and isinstance(obj, Term) and len(args) + len(kw) == 1:
            ty = I.typeof(obj)
            if ty is not None and base in ty[0].mro():
                x = I.freeze((list(args) + list(kw.values()))[0])
                return tuple(mk(q, x) for q in PATH)
        return under(I, obj, name, args, kw, node)
    return contract


def matching_batch(ctx, C, R, w, xs, i, n):
    """step i of flow matching: the three inputs belong to the same rows and to one path"""
    xs = {q: whole(v, i, n, BATCH) for q, v in xs.items()}
    r = T.fresh("r", 0)
    got = {q: T.elem(v, r) for q, v in xs.items()}
    ix = same_rows(ctx, R, "batch", w, got)
    if ix is None:
        return
    p = perm_index(ix)
    if p is None:
        unshuffled(ctx, R, w, ix)
        return
    perm, at = p
    size = T.length(xs["t"])
    ctx.same(R("batch.rows"), w, at, T.add(T.mul(size, i), r), "step k of an epoch takes rows k*size .. (k+1)*size-1 of the permutation: no row twice")
    ctx.same(R("batch.size"), w, size, BATCH, "a minibatch has batch_size rows")
    ctx.same(R("batch.permutation"), w, perm.args[3] if len(perm.args) > 3 else None, T.length(TRIPLE[0]), "the permutation runs over all training rows")
    on_path(ctx, C, R, "batch", w, got, ix)


def same_rows(ctx, R, rule, w, got):
    picks = {}
    for q, v in got.items():
        for u in T.walk(v):
            if u.op == "elem" and u.args[0] in TRIPLE:
                picks.setdefault(u.args[0], []).append(u.args[1])
    ixs = [ix for v in picks.values() for ix in v]
    if set(picks) != set(TRIPLE):
        ctx.bad(R(rule), w, "a step does not use base samples, samples and times", tuple(got.values()))
        return None
    ctx.true(R(rule + ".aligned"), w, all(T.same(ix, ixs[0]) for ix in ixs),
             "base sample, sample and time of a row come from the same row of the training data", tuple(got.values()))
    return ixs[0]


def whitening_of_density(ctx, C):
    """the map from a sample to the point at which the flow's density evaluates its ODE"""
    pt = []
    nf = keys.opaque_models(ctx.p)

    def con(I, obj, name, args, kw, node):
        if name == "log_prob" and isinstance(obj, Term) and I.freeze(obj) is T.attr(SELF, "solver") and args:
            pt.append(I.freeze(args[0]))
            t = mk("mcall", I.freeze(obj), "log_prob", (pt[-1],))
            T.RANK[t] = 0
            return t
        return None if name == "log_prob" and obj is SELF else nf(I, obj, name, args, kw, node)
    keys.run_method(ctx, C, "log_prob", ("x",), [("x", 1)], contract=con)
    if len(pt) != 1 or tainted(pt[0]) is not None:
        return None
    return lambda v: T.subst(pt[0], {T.sym("x"): v})


def on_path(ctx, C, R, rule, w, got, ix):
    """x_t and dx_t of a row are the path between its base sample and its whitened sample at its time"""
    x0, x1, t0 = [T.elem(d, ix) for d in TRIPLE]
    al, dal, sg, dsg = [mk(q, t0) for q in PATH]
    ctx.same(R(rule + ".time"), w, got["t"], t0, "the network is told the time of the row")
    P = whitening_of_density(ctx, C)
    if P is None:
        ctx.und(R(rule + ".point"), w, "the whitening of the density is not modelled")
        return
    y = P(x1)
    ctx.same(R(rule + ".point"), w, got["x_t"], T.add(T.mul(sg, x0), T.mul(al, y)),
             "the network sees the path between the base sample and the whitened sample of the row at its time")
    ctx.same(R(rule + ".velocity"), w, got["dx"], T.add(T.mul(dsg, x0), T.mul(dal, y)),
             "the network is to give the velocity of that path at that time")


def step(ctx, C, R):
    w, wl = ctx.where(C, "train_step"), ctx.where(C, "loss_fn")
    con = network(keys.opaque_models(ctx.p, trains=False))
    names = [a.arg for a in C.lookup("train_step")[2].args.args][1:]
    I, s, r = keys.run_method(ctx, C, "train_step", names, [(q, 2) for q in names if q not in ("optim", "state")], contract=con)
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und(R("step"), w, "train_step does not return three values")
        return
    L, M, S = [I.freeze(x) for x in r]
    if any(tainted(x) is not None for x in (L, M, S)):
        ctx.und(R("step"), w, f"depends on an unmodelled construct: {[tainted(x).args[0] for x in (L, M, S) if tainted(x)][0]}")
        return
    upd = [u for u in T.walk(M) if called(u) and called(u)[1] == "update"]
    if len(upd) != 1:
        ctx.bad(R("step.update"), w, "a step is not one optimizer update", M)
        return
    u = upd[0]
    who, _, a = called(u)
    ctx.same(R("step.update"), w, M, mk("applyupd", SELF, mk("elem", u, 0)), "the update is applied to the model the loss was taken at")
    ctx.same(R("step.state"), w, S, mk("elem", u, 1), "the optimizer state returned is that of the same update")
    ctx.same(R("step.arguments"), w, (who,) + tuple(a[1:3]), (OPTIM, STATE, SELF), "the optimizer sees its state and the current model")
    m = T.fresh("m")
    TYPES[m] = TYPES.get(SELF, (C, True))
    g = T.grad(T.lam(m, T.subst(L, {SELF: m})), SELF)
    ctx.same(R("step.gradient"), w, a[0], g, "the optimizer is given the gradient of the loss it reports, with the sign that descends")
    if C.name != "NFModel":
        return matching_loss(ctx, R, wl, names, L)
    seen = [n for n in names if n not in ("optim", "state") and T.contains(L, T.sym(n))]
    if len(seen) != 1:
        ctx.bad(R("loss"), wl, "the loss does not depend on the batch", L)
        return None
    x = T.sym(seen[0])
    k = T.fresh("k", 0)
    lp = mk("mcall", SELF, "log_prob", (T.elem(x, k),))
    T.RANK[lp] = 0
    want = T.neg(T.div(T.sum_(T.comp(k, lp, T.length(x)), None), T.length(x)))
    ctx.same(R("loss"), wl, L, want, "the loss is minus the mean log-density of the batch")
    return {"x": seen[0]}


def called(u):
    """(receiver, method, positional arguments) of a call of a method of an unknown object"""
    if u.op == "mcall":
        return u.args
    if u.op == "app" and isinstance(u.args[0], Term) and u.args[0].op in ("attr", "meth"):
        return u.args[0].args[0], u.args[0].args[1], u.args[1]
    return None


def network(under):
    """the velocity network maps rows to rows as long as a sample"""
    def contract(I, obj, name, args, kw, node):
        t = under(I, obj, name, args, kw, node)
        if isinstance(t, Term) and t.op == "mcall" and t.args[1] == "__call__":
            t = mk("mcall", t.args[0], "network", t.args[2])
        return t
    return contract


NDIM = T.sym("n_dim")
T.SHAPES[("mcall", "network")] = lambda t: [NDIM]


def used(t, v):
    """v matters to t other than by its length"""
    if isinstance(t, tuple):
        return any(used(x, v) for x in t)
    if not isinstance(t, Term) or not T.contains(t, v):
        return False
    return t is v or t.op not in ("len", "dim", "shape") and any(used(x, v) for x in t.args)


def matching_loss(ctx, R, w, names, L):
    syms = {T.sym(n): n for n in names if n not in ("optim", "state")}
    nets = {u for u in T.walk(L) if u.op == "mcall" and u.args[1] == "network"}
    ins = {u.args[2][0] for u in nets}
    at = ins.pop() if len(ins) == 1 else None
    parts = at.args[0] if isinstance(at, Term) and at.op == "concat" else ()
    if len(parts) != 2 or not all(isinstance(q, Term) and q.op == "elem" and q.args[0] in syms for q in parts):
        if any(not used(L, v) for v in syms):
            ctx.bad(R("loss"), w, "the loss does not use the point, the time and the velocity", L)
        else:
            ctx.und(R("loss"), w, f"input of the velocity network: {txt(L, 300)}")
        return None
    x, t = parts[0].args[0], parts[1].args[0]
    rest = [v for v in syms if v not in (x, t)]
    if len(rest) != 1 or x is t:
        ctx.bad(R("loss"), w, "the network is not given the point and the time", at)
        return None
    dx = rest[0]
    ctx.same(R("loss.rows"), w, parts[0].args[1], parts[1].args[1], "point and time of a row belong together")
    ctx.true(R("loss.network"), w, all(u.args[0] is T.attr(T.attr(SELF, "solver"), "model") for u in nets), "the network trained is the one the flow uses", L)
    k = T.fresh("k", 0)
    row = mk("mcall", T.attr(T.attr(SELF, "solver"), "model"), "network", (mk("concat", (T.elem(x, k), T.elem(t, k)), *at.args[1:]),))
    T.RANK[row] = 1
    diff = T.sub(T.comp(k, row, T.length(x)), dx)
    want = T.div(T.sum_(T.mul(diff, diff), None), T.mul(T.length(x), NDIM))
    ctx.same(R("loss"), w, L, want, "the loss is the mean squared difference between the network and the velocity of the path")
    return {"x_t": syms[x], "t": syms[t], "dx": syms[dx]}


# ------------------------------------------------------------------ the training strategy

def c18(ctx):
    C = ctx.p.find_class("TrainModel")
    w = ctx.where(C, "__call__")
    I = Interp(ctx.p, contract=keys.opaque_models(ctx.p))
    k, res, x, d = keys.KEY, keys.RES, keys.X0, keys.DATA
    T.RANK[x] = 2
    buf = T.attr(T.elem(res, at("data_resource")), "data")
    T.RANK[buf] = 3
    r = I.call(I.get_attr(scen.new_self(C), "__call__", None), [k, res, x, d], {}, None)
    ctx.absorb(I)
    if not isinstance(r, tuple) or len(r) != 3:
        ctx.und("C18.strategy", w, "the strategy does not return a triple")
        return
    key, out, pos = r[0], r[1], I.freeze(r[2])
    ctx.same("C18.position", w, pos, x, "the position handed on is the position received")
    model0, opt = T.elem(res, at("model_resource")), T.elem(res, at("optimizer_resource"))
    lossb = T.elem(res, at("loss_buffer_name"))
    get = lambda o, n: I.freeze(I.get_attr(o, n, None))
    final = dict(model=I.freeze(I.index(out, at("model_resource"), None)), state=get(opt, "optim_state"),
                 data=get(lossb, "data"), cursor=get(lossb, "cursor"))
    calls = {u for v in final.values() for u in T.walk(v) if u.op == "mcall" and u.args[1] == "train"}
    ran = {e.term for e in I.events if e.kind == "app" and isinstance(e.term, Term) and e.term.op == "mcall" and e.term.args[1] == "train"}
    if len(calls | ran) != 1:
        (ctx.bad if not calls or len(ran) > 1 else ctx.und)("C18.train", w, f"the model is trained {len(ran)} times")
        return
    e = (calls | ran).pop()
    ctx.same("C18.model", w, e.args[0], model0, "the model trained is the configured one")
    ctx.same("C18.model.stored", w, final["model"], mk("elem", e, 1), "the trained model replaces the configured model resource")
    ctx.same("C18.state.stored", w, final["state"], mk("elem", e, 2), "the new optimizer state is kept in the optimizer resource")
    ctx.same("C18.optimizer", w, I.freeze(I.index(out, at("optimizer_resource"), None)), opt, "the optimizer resource stays the one that was configured")
    a = e.args[2]
    ctx.same("C18.optimizer.used", w, (a[2], a[3]), (T.attr(opt, "optim"), T.attr(opt, "optim_state")),
             "training uses the optimizer resource and continues from its state")
    ctx.same("C18.epochs", w, a[4], at("n_epochs"), "it runs n_epochs epochs")
    ctx.same("C18.batch", w, a[5], at("batch_size"), "in batches of batch_size")
    training_rows(ctx, w, a[1], buf)
    # losses
    unnamed = T.cmp_eq(at("loss_buffer_name"), "")
    L = mk("elem", e, 3)
    for v in ("data", "cursor"):
        final[v] = tuple(choose(T.assume(final[v], unnamed, not q), at("loss_buffer_name"), q) for q in (True, False))
    b0, c0 = T.attr(lossb, "data"), T.attr(lossb, "cursor")
    on, off = final["data"]
    got = on.args if isinstance(on, Term) and on.op == "dus" else (on, None, None, None)
    ctx.same("C18.loss", w, tuple(got), (b0, L, c0, T.attr(lossb, "cursor_dim")), "the losses are written at the loss buffer's cursor, along its own axis")
    ctx.same("C18.loss.off", w, (off, final["cursor"][1]), (b0, c0), "without a loss buffer no buffer changes")
    ctx.same("C18.loss.cursor", w, final["cursor"][0], T.add(c0, T.length(L)), "the cursor advances by the number of losses")
    ok = {(opt, "optim_state"), (lossb, "data"), (lossb, "cursor")}
    slots = (at("model_resource"), at("optimizer_resource"), at("loss_buffer_name"))
    for ev in I.events:
        if ev.kind == "setattr" and isinstance(ev.obj, Term) and not fresh_object(I, ev.obj):
            ctx.true("C18.only", w, (ev.obj, ev.name) in ok, f"it changes nothing but the model, the optimizer state and the losses ({ev.name})", I.freeze(ev.obj))
        if ev.kind == "setitem" and not I.is_list(ev.obj):
            o, kk = I.freeze(ev.obj), I.freeze(ev.key)
            ctx.true("C18.only", w, not T.contains(o, res) or any(T.same(kk, q) for q in slots) or T.contains(o, buf) or kk is None,
                     f"it replaces no other resource ({txt(kk, 60)})", o)


def choose(t, c, val):
    """t when the value c, used as a condition, is true (false)"""
    def f(x):
        if x.op == "sel" and x.args[0] is c:
            return choose(x.args[1 if val else 2], c, val)
        if x.op == "sel" and isinstance(x.args[0], Term) and x.args[0].op == "not" and x.args[0].args[0] is c:
            return choose(x.args[2 if val else 1], c, val)
        return None
    return T.expand(t, f)


def fresh_object(I, o):
    return o.op == "new"


def at(n):
    return T.attr(SELF, n)


def training_rows(ctx, w, data, buf):
    """the rows trained on: finite rows of the data buffer among the last history_window of each chain"""
    if not isinstance(data, Term):
        ctx.und("C18.data", w, "training data are not modelled")
        return
    u = tainted(data)
    if u is not None:
        ctx.und("C18.data", w, f"depends on an unmodelled construct: {u.args[0]}")
        return
    ctx.same("C18.data.count", w, T.length(data), at("n_max_examples"), "n_max_examples rows are used")
    r = T.fresh("r", 0)
    row = T.elem(data, r)
    src = row
    ixs = []
    while isinstance(src, Term) and src.op == "elem":
        ixs.append(src.args[1])
        src = src.args[0]
    rows = [v for v in T.walk(row) if v.op == "maskrows"]
    if not T.contains(row, buf):
        ctx.bad("C18.data", w, "the training rows do not come from the data resource", row)
        return
    if not rows:
        ctx.bad("C18.data.finite", w, "rows that were never filled are not left out", row)
        return
    m = rows[0]
    mask = [T.mk("all", T.unary("isfinite", buf), q) for q in (-1, 2)]
    ctx.same("C18.data.source", w, m.args[0], buf, "the rows come from the configured data buffer")
    ctx.true("C18.data.finite", w, any(T.same(m.args[1], q) for q in mask), "rows that were never filled are left out", m.args[1])
    if not (src is m and len(ixs) == 1):
        ctx.und("C18.data.window", w, f"rows per chain: {txt(row, 300)}")
        return
    ix = ixs[0]
    W = at("history_window")
    per = T.floordiv(T.length(m), T.length(buf))
    draws = [v for v in T.walk(ix) if v.op == "elem" and v.args[0].op == "rnd"]
    if len(set(draws)) != 1:
        (ctx.bad if not draws else ctx.und)("C18.data.draw", w, "rows are not drawn at random", row)
        return
    z = draws[0]
    c = T.floordiv(z, W)
    ctx.same("C18.data.window", w, ix, T.add(T.mul(c, per), T.sub(per, W), T.sub(z, T.mul(c, W))),
             "draw z is row z mod history_window of the last history_window finite rows of chain z // history_window")
    rv = z.args[0]
    tot = T.mul(T.length(buf), W)
    par = rv.args[3:]
    if rv.args[0] == "choice":
        ctx.same("C18.data.draw", w, (par[0], par[2]), (tot, None), "draws are uniform over all chains and window rows")
    elif rv.args[0] == "randint":
        ctx.same("C18.data.draw", w, par[:2], (0, tot), "draws are uniform over all chains and window rows")
    else:
        ctx.und("C18.data.draw", w, f"draws by {rv.args[0]}")
