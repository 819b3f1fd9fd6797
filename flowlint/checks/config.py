"""Options: what a constructor keeps of its arguments, and where a bundle's options end up."""
from .. import terms as T
from ..terms import Term, mk
from ..interp import Interp, TYPES
from ..project import ClassInfo
from . import algebra, effects, keys
from .bundle import bundles, along, dims
from .base import tainted, relsite

# bundle option -> (component class, parameter of its constructor)
OPTIONS = {
    "n_local_steps": ("TakeSerialSteps", "n_steps"),
    "local_thinning": ("TakeSerialSteps", "thinning"),
    "n_global_steps": ("TakeGroupSteps", "n_steps"),
    "global_thinning": ("TakeGroupSteps", "thinning"),
    "chain_batch_size": (("TakeSerialSteps", "TakeGroupSteps"), "chain_batch_size"),
    "mala_step_size": ("MALA", "step_size"),
    "n_NFproposal_batch_size": ("NFProposal", "n_NFproposal_batch_size"),
    "n_dims": ("MaskedCouplingRQSpline", "n_features"),
    "rq_spline_n_layers": ("MaskedCouplingRQSpline", "n_layers"),
    "rq_spline_hidden_units": ("MaskedCouplingRQSpline", "hidden_size"),
    "rq_spline_n_bins": ("MaskedCouplingRQSpline", "num_bins"),
    "learning_rate": ("Optimizer", "learning_rate"),
    "n_epochs": ("TrainModel", "n_epochs"),
    "batch_size": ("TrainModel", "batch_size"),
    "n_max_examples": ("TrainModel", "n_max_examples"),
    "history_window": ("TrainModel", "history_window"),
    "n_tempered_steps": ("ParallelTempering", "n_steps"),
}


# optimisers of optax whose first parameter is the learning rate
STEPPERS = {"adam", "adamw", "sgd", "rmsprop", "adabelief", "adagrad", "adamax", "adamaxw", "lamb", "lion", "nadam",
            "nadamw", "radam", "yogi", "novograd", "amsgrad", "noisy_sgd", "fromage", "lars"}


def params(C):
    m = C.lookup("__init__")[2]
    return [a.arg for a in m.args.posonlyargs + m.args.args][1:] + [a.arg for a in m.args.kwonlyargs]


def components(p):
    yield from effects.strategies(p)
    for C in p.subclasses(p.find_class("ProposalBase")):
        yield C
    yield p.find_class("Optimizer")


def c27_components(ctx):
    for C in components(ctx.p):
        h = C.lookup("__init__")
        if h is None or h[1] != "method" or ctx.p.is_abstract(h[2]):
            continue
        R = lambda s, C=C: f"C27.keeps.{s}[{C.name}]"
        w = ctx.where(C, "__init__")
        I = Interp(ctx.p)
        names = params(C)
        o = I.call(C, [], {n: T.sym(n) for n in names}, None)
        ctx.absorb(I)
        rec = {k: I.freeze(v) for k, v in I.st.heap.get(o, {}).items()}
        u = tainted(tuple(rec.values()))
        for n in names:
            v = T.sym(n)
            if n in rec:
                ctx.same(R(n), w, rec[n], v, f"the attribute {n} is the argument {n}")
            elif u is not None:
                ctx.und(R(n), w, f"depends on an unmodelled construct: {u.args[0]}")
            else:
                ctx.true(R(n), w, any(isinstance(x, Term) and T.contains(x, v) for x in rec.values()),
                         f"the argument {n} is kept", tuple(rec.values()))
        for t in {t for x in rec.values() if isinstance(x, (Term, tuple)) for t in T.walk(x)}:
            # arguments handed to the optimiser library under their own names
            if not t.op.startswith("optax.") or len(t.args) != 2:
                continue
            given = dict(t.args[1])
            if t.op.split(".")[-1] in STEPPERS and t.args[0]:
                given["learning_rate"] = t.args[0][0]
            for k, x in given.items():
                if k in names:
                    ctx.same(R("passed." + k), w, x, T.sym(k), f"{k} is passed on as {k}")
        if "current_position" in rec:
            ctx.same(R("start"), w, rec["current_position"], 0, "recording starts at the first row")


class Built:
    def __init__(self, ctx, C):
        under = keys.opaque_models(ctx.p)
        p = ctx.p
        flows = {p.maybe_class("NFModel"), p.maybe_class("FlowMatchingModel")} - {None}
        self.made = []                     # (class, {parameter: value}, site)

        def contract(I, obj, name, args, kw, node):
            if name == "__init__" and isinstance(obj, ClassInfo):
                ps = params(obj) if obj.lookup("__init__") else []
                self.made.append((obj, {**dict(zip(ps, args)), **kw}, I.site(node) if node is not None else "?"))
                if any(b in obj.mro() for b in flows):
                    t = mk("mcall", T.sym("class:" + obj.name), "new", tuple(I.freeze(a) for a in args) +
                           tuple(I.freeze(v) for _, v in sorted(kw.items())))
                    TYPES[t] = (obj, True)
                    return t
                return None
            return under(I, obj, name, args, kw, node)

        I = self.I = Interp(p, contract=contract)
        self.names = [n for n in params(C) if n not in ("verbose",)]
        self.o = I.call(C, [], {n: T.sym(n) for n in self.names}, None)
        ctx.absorb(I)
        self.resources = {}
        d = I.get_attr(self.o, "resources", None)
        for k, v in I.st.heap.get(d, {}).get("#d", ()) if isinstance(d, Term) else ():
            if isinstance(k, str):
                self.resources[k] = v


def c27_bundles(ctx):
    for C in bundles(ctx):
        b = Built(ctx, C)
        I = b.I
        R = lambda s, C=C: f"C27.option.{s}[{C.name}]"
        w = ctx.where(C, "__init__")
        for opt, (cls, par) in OPTIONS.items():
            if opt not in b.names:
                continue
            for cn in (cls if isinstance(cls, tuple) else (cls,)):
                hits = [(x, s) for D, x, s in b.made if D.name == cn]
                if not hits:
                    ctx.und(R(opt), w, f"no {cn} is constructed")
                for x, s in hits:
                    v = T.sym(opt)
                    want = v
                    got = I.freeze(x.get(par)) if par in x else None
                    if opt == "n_tempered_steps" and isinstance(got, Term) and got.op == "sel":
                        # zero or less stands for the number of local steps
                        ctx.true(R(opt), f"{relsite(s)} ({C.name}.__init__)",
                                 {got.args[1], got.args[2]} == {v, T.sym("n_local_steps")},
                                 f"{opt} is the {par} of {cn}", got)
                        continue
                    ctx.true(R(opt), f"{relsite(s)} ({C.name}.__init__)", par in x and T.same(got, want),
                             f"{opt} is the {par} of {cn}", got, want)
        made = [(x, s) for D, x, s in b.made if D.name == "Optimizer"]
        model = I.freeze(b.resources.get("model")) if "model" in b.resources else None
        for x, s in made:
            ctx.same(R("optimizer.model"), f"{relsite(s)} ({C.name}.__init__)", I.freeze(x.get("model")), model,
                     "the optimizer is set up for the model resource")
        for D, x, s in b.made:
            if D.name == "NFProposal":
                ctx.same(R("proposal.model"), f"{relsite(s)} ({C.name}.__init__)", I.freeze(x.get("model")), model,
                         "the global kernel starts with the model resource")
        if model is not None:
            ctx.true(R("rng_key"), w, T.contains(model, T.sym("rng_key")), "the model is initialised from the caller's key", model)
        for nm, o in b.resources.items():
            ty = I.typeof(o) if isinstance(o, Term) else None
            if not ty or ty[0].name != "Buffer":
                continue
            t = I.freeze(I.get_attr(o, "data", None))
            n = len(dims(t))
            if n >= 2:
                ctx.same(R(f"n_chains.{nm}"), w, along(t, 0), T.sym("n_chains"), f"{nm} has one entry per chain")
            if n == 3:
                ctx.same(R(f"n_dims.{nm}"), w, along(t, 2), T.sym("n_dims"), f"a position in {nm} has n_dims entries")
            if "n_temperatures" in b.names and n == 1 and "temperature" in nm:
                K = T.sym("n_temperatures")
                ctx.same(R("n_temperatures"), w, along(t, 0), K, "the ladder has n_temperatures rungs")
                top, alg = T.elem(t, T.sub(K, 1)), algebra.Alg()
                ctx.true(R("max_temperature"), w, T.same(top, T.sym("max_temperature")) or
                         algebra.zero(alg(top) - alg(T.sym("max_temperature"))), "the hottest rung is at max_temperature", top)
                for m2, o2 in b.resources.items():
                    t2 = I.freeze(I.get_attr(o2, "data", None)) if I.typeof(o2) and I.typeof(o2)[0].name == "Buffer" else None
                    if t2 is not None and m2.startswith("tempered") and len(dims(t2)) == 3:
                        ctx.same(R("replicas"), w, along(t2, 1), T.sub(K, 1), "one replica is kept for every rung but the coldest")
