"""Which rules decide which property."""
from . import kernels, hmc, steps, pt, keys, optim, flows, spline, density, train, ode, bundle, persist, sampler, effects, config, updates

BASE = ["the meaning given to the jax, equinox, optax and diffrax operations used (flowlint/lib.py)",
        "real arithmetic: rounding is not modelled"]
VN = "abstract interpretation of the source into symbolic value terms (gated value numbering) compared in normal form"


class Property:
    def __init__(self, pid, title, rules, technique=VN, explain="", assumptions=(), note=""):
        self.id, self.title, self.rules, self.technique = pid, title, rules, technique
        self.note, self.explain, self.assumptions = note, explain, BASE + list(assumptions)


PROPERTIES = {}


def prop(*a, **k):
    p = Property(*a, **k)
    PROPERTIES[p.id] = p



prop("C01", "Random-walk and Langevin steps satisfy detailed balance",
     [kernels.c01_random_walk, kernels.c01_langevin],
     explain="Each kernel is evaluated on a symbolic chain state. The proposal is decomposed as "
             "m(x) + s z with one standard-normal vector z, the Metropolis-Hastings log-ratio is derived "
             "from that decomposition, and the ratio the code compares with its uniform draw must have "
             "the same normal form.")
prop("C02", "HMC proposes along one Hamiltonian, reversibly, and accepts on its energy",
     [hmc.c02],
     explain="The leapfrog loop body is evaluated symbolically, each update must be a shear along the gradient "
             "of one energy, the coefficient sequence must be a palindrome, the momentum law must be the Gibbs "
             "law of the kinetic energy, and the accept ratio the energy difference.")
prop("C03", "Flow proposals are corrected as independence Metropolis-Hastings", [kernels.c03],
     explain="The proposal loop is summarised by its recurrence; target and flow log-densities of row j must be "
             "those of proposal j in both batching configurations.")
prop("C04", "Reported log-probabilities and flags match the reported positions",
     [kernels.c04_kernels, kernels.c04_nf, steps.c04_steps],
     explain="Accepting and rejecting branches of every returned value, and the loop-carried pair of the steppers.")
prop("C05", "Points of zero or undefined density are never accepted", [kernels.c05_kernels, kernels.c05_nf],
     explain="Accept decisions are put in the form c < ratio; the ratio must contain the proposal's log-density "
             "with coefficient +1 and the comparison must be false on NaN.")
prop("C06", "The caller's data reach every evaluation of the target", [steps.c06_steps],
     explain="The density handed to a kernel is applied to a fresh point and compared with the target on the caller's data.")
prop("C07", "Every random draw has its own key derived from the caller's key",
     [keys.c07_kernels, keys.c07_steps, keys.c07_pt, keys.c07_models, keys.c07_strategies, keys.c07_init,
      keys.c07_sources],
     technique="dataflow over symbolic value terms: derivation paths of random keys, pairwise disjointness",
     explain="Every live random draw's key is written as a derivation path (splits, children, loop chains) from the "
             "caller's key; two draws, or a draw and the key handed on, must part into different children.")
prop("C08", "Every recording step fills the same rows of all three buffers", [steps.c08],
     explain="The slices written to the three buffers, as functions of chain, row and step.")
prop("C09", "Chains are independent and chain batching is invisible", [steps.c09, pt.c09_pt],
     explain="Batching loops are summarised by concatenation and the batch size must vanish from every output; the "
             "row of a chain may mention the starting points only at its own index.")
PROPERTIES["C05"].rules.append(pt.c05_pt)
PROPERTIES["C06"].rules += [kernels.c06_kernels, pt.c06_pt, optim.c06_adam]
prop("C19", "Replica exchange swaps adjacent rungs by the Metropolis rule", [pt.c19])
prop("C20", "The temperature ladder keeps its ends and freezes in production", [pt.c20])
prop("C28", "Every rung is stepped on its own tempered density", [pt.c28])
prop("C21", "Optimisation climbs the target from each chain's start inside the bounds",
     [optim.c21, optim.c21_init, optim.c21_optimize],
     explain="The optimisation loop is summarised by its recurrence; gradient, solver state, projection and outputs are compared.")
prop("C13", "Every flow layer is invertible and reports its own Jacobian",
     [flows.c13_elementwise, flows.c13_coupling, flows.c13_compose, flows.c13_masks],
     technique="abstract interpretation into symbolic value terms; algebraic identity of each layer per coordinate "
               "(derivative, composition), recurrence summaries of the layer loops",
     explain="Coordinate-wise layers: derivative of the output term equals exp(log-det), inverse composed with forward "
             "is the identity. Masked layers: per mask value, and the element type of the masks a flow builds. Flows: order of the layer calls in forward and inverse.")
prop("C14", "The spline bijection is monotone, hits its knots and inverts exactly",
     [spline.c14],
     technique="abstract interpretation into symbolic value terms; exact rational-function identities in the knots of "
               "the selected bin, sign by positive coefficients",
     explain="The inside, lower and upper expressions of forward and inverse are extracted; the one-hot bin mask is "
             "resolved to bin k; identities are decided in the field of rational functions of x, knots and slopes.",
     assumptions=["num_bins * min_bin_size is less than the spline range, so bin sizes are positive"])
prop("C15", "A flow samples exactly the density it reports", [density.c15],
     explain="log_prob and sample of every flow over uninterpreted forward, inverse and base distribution: change of "
             "variables term by term, whitening Jacobian per coordinate, un-whitening against whitening; the Gaussian and "
             "the composed base distribution likewise.",
     assumptions=["forward and inverse of the flow itself are mutually inverse with their reported log-determinant (C13, C14)"])
prop("C17", "Training descends the loss it reports and returns the best epoch", [train.c17],
     technique="abstract interpretation into symbolic value terms; recurrence summaries of the epoch and minibatch loops",
     explain="train, train_epoch, train_step and loss_fn of both flow families are evaluated symbolically; the recurrence of "
             "each loop (model, optimizer state, loss, best-so-far) is compared with the specified one.",
     assumptions=["optax's update and equinox's apply_updates do what their documentation says"])
prop("C18", "The training strategy fits the configured model to recent chain history", [train.c18],
     explain="TrainModel.__call__ is evaluated over uninterpreted train(): its arguments, the rows gathered from the data "
             "buffer, and every write to a resource.",
     assumptions=["every chain has the same number of filled rows, at least history_window of them"])
prop("C16", "Flow matching samples and scores along one ODE matching its training path", [ode.c16],
     explain="The two ode solves are compared: right-hand side, direction, start, base law, divergence; path and scheduler "
             "are compared with their derivatives; whitening with un-whitening.",
     assumptions=["the ode solver is exact (its discretisation error is not modelled)",
                  "the velocity network maps [point, time] to a vector as long as the point"])
prop("C10", "A run fills every buffer exactly, in order, with matching rows", [bundle.c10],
     technique="abstract interpretation into symbolic value terms; recurrence summaries of the loops over strategies",
     explain="Every bundle's __init__ and Sampler.sample are evaluated with symbolic numbers of loops, steps, chains and "
             "dimensions, with kernels and flow training uninterpreted; the slices written to each buffer are summed up.")
prop("C11", "Training and production are kept apart", [bundle.c11],
     technique="abstract interpretation into symbolic value terms; effect trace of a whole symbolic run",
     explain="The trace of writes, kernel steps and trainings of a whole symbolic run of each bundle is cut at the clearing "
             "of the training flag; what each side writes and what the production side may not change are checked.")
prop("C12", "Global steps propose from the model trained last", [bundle.c12],
     technique="abstract interpretation into symbolic value terms; effect trace of a whole symbolic run",
     explain="At every global step of a symbolic run the model inside the kernel is compared with the model resource.")
prop("C29", "All steps of a run target one and the same density", [bundle.c29, bundle.c29_replicas],
     technique="abstract interpretation into symbolic value terms; effect trace of a whole symbolic run",
     explain="The density handed to every kernel call of a symbolic run is applied to one fresh point, the temperatures "
             "set to one, and compared across strategies and with the caller's density.")
prop("C22", "A loaded resource is the one that was saved", [persist.c22, persist.c22_leaves],
     technique="abstract interpretation into symbolic value terms of save and load; fields matched through the file",
     explain="save_resource/save_model is evaluated and the fields and path it writes recorded; load_resource/load_model is "
             "evaluated on another object with the file's entries replaced by what was written.",
     assumptions=["numpy and equinox read back what they wrote (text of numbers aside)"])
prop("C23", "A run applies the strategies in order, each on what the last one left", [sampler.c23_sample, sampler.c23_init],
     technique="abstract interpretation into symbolic value terms; recurrence summary of the loop over strategies",
     explain="Sampler.sample is evaluated with an uninterpreted order and strategies; its loop recurrence is compared with "
             "the specified one. __init__ is evaluated for each way of giving resources and strategies.")
prop("C24", "A strategy changes only the resources it is configured with", [effects.c24],
     technique="write-effect analysis over symbolic evaluation of every strategy",
     explain="Every attribute and item store of a strategy call, on paths through all helpers, is attributed to the object it "
             "changes; the object must be the strategy itself, new, or a resource looked up under a configured name.")
prop("C25", "Compiled code has no hidden state", [effects.c25],
     technique="effect analysis: attributes read and written inside jit-compiled and scanned functions against the set of "
               "attributes assigned after construction",
     explain="All attribute reads and stores evaluated inside jit or scan for every strategy and kernel are listed and "
             "matched with the attributes assigned outside constructors anywhere in the package.")
prop("C26", "Target densities pass through jax transformations unchanged", [effects.c26],
     explain="tree_unflatten of tree_flatten of a symbolic object must have the same class and the same fields.")
prop("C27", "Every option reaches the component it configures", [config.c27_components, config.c27_bundles],
     technique="dataflow over symbolic value terms from constructor parameters to component constructors and attributes",
     explain="Bundles and components are constructed from symbolic arguments; what each component's constructor receives and "
             "keeps is compared with the option of the bundle.")
prop("C30", "Updates of buffers and states change exactly what they name",
     [updates.c30_buffer, updates.c30_state, updates.c30_strategies],
     technique="abstract interpretation into symbolic value terms; stores of a symbolic update attributed to the objects changed",
     explain="Buffer.update_buffer, State.update, and the UpdateState and Lambda strategies are evaluated on symbolic objects and "
             "arguments; the content afterwards, every store, and what is handed on are compared with the specification.",
     assumptions=["as many values as keys are given"])
