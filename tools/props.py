"""Text of every property: the single source of properties.jsonl and MANIFEST.json (see gen.py)."""
K = "src/flowMC/resource/kernel/"
S = "src/flowMC/strategy/"
M = "src/flowMC/resource/model/"
R = "src/flowMC/resource/"
B = "src/flowMC/resource_strategy_bundle/"

PROPS = [
 dict(id="C01", title="Random-walk and Langevin steps satisfy detailed balance",
  statement="A random-walk or Langevin (MALA) step draws its proposal from the Gaussian proposal density that its "
            "configured step size defines, and accepts it exactly when the log of a fresh uniform number is below the "
            "Metropolis-Hastings log-ratio of target density and forward/backward proposal densities. This holds for "
            "every target, position, dimension, data and step size, so each step leaves the target invariant.",
  over=["inputs", "configurations"], text="all targets, positions, dimensions, data values, step sizes, keys",
  why="tests run a few chains on one or two Gaussian-like targets and check means or acceptance rates; a wrong ratio "
      "that is nearly right passes them",
  files=[K + "Gaussian_random_walk.py", K + "MALA.py"],
  mech=[("GaussianRandomWalk.kernel", K + "Gaussian_random_walk.py"), ("MALA.kernel", K + "MALA.py")]),
 dict(id="C02", title="HMC proposes along one Hamiltonian, reversibly, and accepts on its energy",
  statement="The Hamiltonian step draws its momentum from the Gaussian whose log-density is minus the kinetic energy it "
            "uses, moves position and momentum by alternating shears along the gradients of that same kinetic energy "
            "and of minus the target log-density, with a step sequence that is the same read backwards, and accepts on "
            "the difference of the total energies before and after. This holds for every target, mass matrix, step "
            "size and number of leapfrog steps.",
  over=["inputs", "configurations"], text="all targets, condition matrices, step sizes, leapfrog counts",
  why="tests use a diagonal condition matrix and few step counts; reversibility and volume preservation are statements "
      "about all of phase space",
  files=[K + "HMC.py"], mech=[("HMC.kernel, leapfrog_kernel, leapfrog_step, get_initial_hamiltonian", K + "HMC.py")]),
 dict(id="C03", title="Flow proposals are corrected as independence Metropolis-Hastings",
  statement="The global (normalizing-flow) step proposes points drawn from its flow and accepts each one exactly when "
            "the log of a fresh uniform number is below the target log-density difference minus the flow log-density "
            "difference between the proposed point and the chain's current point. This is so for every step of the "
            "sequence, for every flow, target and number of steps, and whether or not the proposals are evaluated in "
            "batches.",
  over=["inputs", "configurations"], text="all flows, targets, step counts and proposal batch sizes",
  why="tests only compare a few batch sizes for shape and finite output",
  files=[K + "NF_proposal.py"], mech=[("NFProposal.kernel, sample_flow", K + "NF_proposal.py")]),
 dict(id="C04", title="Reported log-probabilities and flags match the reported positions",
  statement="After every step of every kernel and of every stepping strategy, the log-probability reported next to a "
            "position is the target log-density of exactly that position, and the acceptance flag is true exactly when "
            "the reported position is the proposed one. The log-probability used as the starting value of a step is "
            "that of the position the step starts from.",
  over=["inputs", "histories"], text="all targets, kernels, step counts, and every step of a run",
  why="tests look at finiteness and shapes; a stale log-probability changes no shape",
  files=[K + "MALA.py", K + "Gaussian_random_walk.py", K + "HMC.py", K + "NF_proposal.py", S + "take_steps.py"],
  mech=[("kernel methods", K), ("TakeSteps.sample", S + "take_steps.py")]),
 dict(id="C05", title="Points of zero or undefined density are never accepted",
  statement="A proposal whose target log-density is minus infinity or not a number is rejected by every kernel, so a "
            "chain that starts inside the support never leaves it. The accept decision is a comparison that is false "
            "for an undefined ratio, in every kernel and in the replica exchange.",
  over=["inputs"], text="all targets with hard boundaries or undefined regions, all kernels",
  why="tests use smooth targets that are finite everywhere",
  files=[K + "MALA.py", K + "Gaussian_random_walk.py", K + "HMC.py", K + "NF_proposal.py", S + "parallel_tempering.py"],
  mech=[("log_uniform < ratio", K)]),
 dict(id="C06", title="The caller's data reach every evaluation of the target",
  statement="Every evaluation of the target density, during stepping, tempering, exchange and optimisation, receives "
            "exactly the data the caller passed in: it is not dropped, replaced, or altered by what a strategy adds for "
            "its own use.",
  over=["inputs", "configurations"], text="all data pytrees, kernels and strategies",
  why="the tests' targets ignore most or all of the data argument",
  files=[S + "take_steps.py", S + "parallel_tempering.py", S + "optimization.py", K + "NF_proposal.py", R + "logPDF.py"],
  mech=[("TakeSteps.__call__/sample", S + "take_steps.py"), ("ParallelTempering.__call__", S + "parallel_tempering.py")]),
 dict(id="C08", title="Every recording step fills the same rows of all three buffers",
  statement="A stepping strategy records positions, log-probabilities and acceptance flags of the same kept steps, in "
            "the same rows of the three buffers its state names, starting at its recording position, and advances that "
            "position by exactly the number of rows written. Row for row the three buffers describe the same step of "
            "the same chain, for every number of steps, thinning and chain batch size, and the position handed on is "
            "the last recorded one.",
  over=["inputs", "configurations", "histories"], text="all step counts, thinning factors, batch sizes and call sequences",
  why="tests fix one or two thinning values that divide the number of steps",
  files=[S + "take_steps.py", R + "buffers.py"], mech=[("TakeSteps.__call__", S + "take_steps.py"),
                                                       ("Buffer.update_buffer", R + "buffers.py")]),
 dict(id="C09", title="Chains are independent and chain batching is invisible",
  statement="What is recorded for a chain depends on that chain's starting point and its own random key only, never on "
            "another chain. Splitting the chains into batches changes neither the samples, log-probabilities, flags "
            "and keys nor the order of the chains, for every batch size.",
  over=["inputs", "configurations"], text="all numbers of chains and batch sizes",
  why="tests compare one batch size at most, and cross-chain leakage leaves shapes unchanged",
  files=[S + "take_steps.py"], mech=[("TakeSteps.__call__", S + "take_steps.py")]),
 dict(id="C07", title="Every random draw has its own key derived from the caller's key",
  statement="Every random number the library draws comes from a key derived, through splits and fold-ins, from the key "
            "its caller passed in. No key is used for two draws, no key is both used for a draw and split or handed on, "
            "every iteration, chain, rung and layer that draws has a key of its own, and the key a strategy or training "
            "call returns is disjoint from every key it used. No draw comes from a fixed or global source.",
  over=["inputs", "histories"], text="all keys, step counts, chain counts, call sequences",
  why="correlated draws leave every output well-formed; tests look at a handful of seeds",
  files=[K + "Gaussian_random_walk.py", K + "MALA.py", K + "HMC.py", K + "NF_proposal.py", S + "take_steps.py",
         S + "parallel_tempering.py", S + "train_model.py", S + "optimization.py", M + "common.py",
         M + "nf_model/base.py", M + "nf_model/realNVP.py", M + "nf_model/rqSpline.py", M + "flowmatching/base.py"],
  mech=[("kernel methods", K), ("strategies", S), ("models: sample, train, __init__", M)]),
 dict(id="C13", title="Every flow layer is invertible and reports its own Jacobian",
  statement="For every input, condition and parameter value, the inverse of an affine or coupling layer undoes its "
            "forward map, the forward map reports the log-determinant of its own Jacobian and the inverse reports minus "
            "that. A coupling layer leaves the masked coordinates unchanged and conditions only on them. A flow applies "
            "its layers one after another adding each layer's log-determinant once, and its inverse applies their "
            "inverses in exactly the opposite order.",
  over=["inputs", "configurations"], text="all inputs, conditions, masks, parameter values, layer counts",
  why="tests compare forward and inverse of freshly initialised, almost-identity models on a few points at loose tolerance",
  files=[M + "common.py", M + "nf_model/realNVP.py", M + "nf_model/rqSpline.py"],
  mech=[("MaskedCouplingLayer, MLPAffine, ScalarAffine", M + "common.py"),
        ("AffineCoupling, RealNVP.forward, RealNVP.inverse", M + "nf_model/realNVP.py"),
        ("MaskedCouplingRQSpline.forward, inverse", M + "nf_model/rqSpline.py")]),
 dict(id="C14", title="The spline bijection is monotone, hits its knots and inverts exactly",
  statement="For all bin widths, heights and slopes its conditioner can produce, the rational-quadratic spline maps the "
            "knots of each bin onto one another with the knot slopes as derivatives, is strictly increasing, continues "
            "linearly outside the range, reports the log of its derivative, and its inverse recovers the input exactly "
            "(never dividing by something that can vanish) and reports minus the same number. Widths and heights are "
            "at least the minimum size and add up to the configured range.",
  over=["inputs", "configurations"], text="all inputs, conditioner outputs, bin counts, ranges",
  why="tests use one random initialisation where all bins are nearly equal and slopes nearly one",
  files=[M + "nf_model/rqSpline.py"],
  mech=[("_rational_quadratic_spline_fwd, _rational_quadratic_spline_inv, _safe_quadratic_root", M + "nf_model/rqSpline.py"),
        ("RQSpline.get_params", M + "nf_model/rqSpline.py")]),
 dict(id="C15", title="A flow samples exactly the density it reports",
  statement="For every RealNVP and rational-quadratic-spline flow, data mean and covariance, log_prob is the base "
            "log-density at the forward image of the whitened point plus the flow's log-determinant plus the log-"
            "Jacobian of the whitening; each sample is the inverse image of one draw from that same base distribution "
            "with the whitening undone; and the Gaussian base samples with the mean and covariance of its log-density.",
  over=["inputs", "configurations"], text="all points, data statistics, flow parameters, sample counts",
  why="tests check shapes, and that densities are finite",
  files=[M + "nf_model/realNVP.py", M + "nf_model/rqSpline.py", M + "common.py"],
  mech=[("RealNVP.log_prob, sample", M + "nf_model/realNVP.py"),
        ("MaskedCouplingRQSpline.log_prob, sample", M + "nf_model/rqSpline.py"), ("Gaussian", M + "common.py")]),
 dict(id="C16", title="Flow matching samples and scores along one ODE matching its training path",
  statement="A flow-matching model draws samples by integrating its network's velocity field from standard-normal points "
            "at time 0 to time 1, and computes log-densities by integrating the same field back from time 1 to 0 together "
            "with the divergence of the velocity with respect to the point: log-density = standard-normal log-density "
            "where the integration ends minus the integral of the divergence. Every path scheduler joins base sample "
            "(time 0) and data sample (time 1) and reports the derivatives of its own coefficients. The whitening applied "
            "before the density is undone on samples and contributes its log-Jacobian.",
  over=["inputs", "configurations"], text="all networks, points, times, step sizes and whitening statistics",
  why="tests check shapes and finiteness of samples and log-densities",
  files=[M + "flowmatching/base.py"],
  mech=[("Solver.sample, Solver.log_prob", M + "flowmatching/base.py"), ("CondOTScheduler, Path.sample", M + "flowmatching/base.py"),
        ("FlowMatchingModel.sample, log_prob", M + "flowmatching/base.py")]),
 dict(id="C17", title="Training descends the loss it reports and returns the best epoch",
  statement="Training a flow runs num_epochs epochs. Each epoch visits whole batches of distinct rows of the training "
            "data in a random order (or all rows at once when there is less than one batch) and starts from the model "
            "and optimizer state the previous step returned. Each step gives the optimizer the gradient of the loss it "
            "reports at the current model (minus the mean log-density of the batch; for flow matching the mean squared "
            "difference between the network and the velocity of the path through the rows' own base sample, whitened "
            "sample and time) and applies the update it gets back. The loss of each epoch is recorded in its place, and "
            "the model and optimizer state returned are those of the epoch with the smallest recorded loss. Training "
            "first sets the whitening statistics to the mean and covariance of the training data.",
  over=["inputs", "configurations", "histories"], text="all training sets, batch sizes, epoch counts, optimizers and models",
  why="tests train for a few epochs on one data set and check shapes or that the loss went down once",
  files=[M + "nf_model/base.py", M + "flowmatching/base.py"],
  mech=[("NFModel.train, train_epoch, train_step, loss_fn", M + "nf_model/base.py"),
        ("FlowMatchingModel.train, train_epoch, train_step, loss_fn; Path.sample", M + "flowmatching/base.py")]),
 dict(id="C18", title="The training strategy fits the configured model to recent chain history",
  statement="The training strategy trains the configured model resource exactly once, on n_max_examples rows drawn "
            "uniformly from the last history_window filled rows of every chain of the configured data buffer, with the "
            "configured optimizer resource and its current state, for n_epochs epochs in batches of batch_size. The "
            "trained model replaces the model resource, the new optimizer state stays in the optimizer resource, the "
            "losses are appended to the loss buffer (if one is named) and its cursor advances by their number; no other "
            "resource and no position changes.",
  over=["inputs", "configurations", "histories"], text="all buffer contents, window and example counts, models, optimizers",
  why="tests run it once on one buffer and check that it does not fail",
  files=[S + "train_model.py", R + "buffers.py"],
  mech=[("TrainModel.__call__", S + "train_model.py")]),
 dict(id="C19", title="Replica exchange swaps adjacent rungs by the Metropolis rule",
  statement="Parallel tempering proposes to exchange each adjacent pair of rungs of the same chain, once per call and "
            "in order, and accepts when the log of a fresh uniform number is below the change of the summed tempered "
            "log-densities of the two rungs at their two temperatures. An accepted exchange swaps exactly these two "
            "positions (and the densities kept for them), a rejected one changes nothing, and no other rung moves.",
  over=["inputs", "configurations"], text="all targets, priors, ladders, chain counts and positions",
  why="tests check shapes of the exchanged arrays for one Gaussian target",
  files=[S + "parallel_tempering.py", R + "logPDF.py"],
  mech=[("ParallelTempering._exchange", S + "parallel_tempering.py")]),
 dict(id="C20", title="The temperature ladder keeps its ends and freezes in production",
  statement="Adapting the temperature ladder never changes its coldest and hottest rung, and outside the training phase "
            "no temperature changes at all. The position of the coldest rung is what the strategy hands on; the hotter "
            "replicas after the exchange are stored, row for row and chain for chain, in every phase, and are where the "
            "next call continues.",
  over=["inputs", "histories"], text="all ladders, chain counts, call sequences, training and production phases",
  why="tests run one short training loop and check shapes",
  files=[S + "parallel_tempering.py"],
  mech=[("ParallelTempering._adapt_temperature", S + "parallel_tempering.py"),
        ("ParallelTempering.__call__", S + "parallel_tempering.py")]),
 dict(id="C21", title="Optimisation climbs the target from each chain's start inside the bounds",
  statement="The Adam strategy moves every chain from its own starting point by n_steps solver updates. The solver is "
            "given the gradient of minus the target log-density at the current parameters on the caller's data, scaled "
            "by one plus noise_level times a standard normal number, its state is carried from step to step, and after "
            "every update the parameters are clipped into the configured bounds. It returns one final position per "
            "chain together with the target log-density there, and touches no resource.",
  over=["inputs", "configurations"], text="all targets, starting points, bounds, step counts and noise levels",
  why="tests optimise one convex function",
  files=[S + "optimization.py"], mech=[("AdamOptimization.optimize", S + "optimization.py")]),
 dict(id="C28", title="Every rung is stepped on its own tempered density",
  statement="In parallel tempering, rung t of a chain takes n_steps steps of the configured kernel on the tempered "
            "density at the temperature of rung t and on the caller's data, starting from the chain's current position "
            "(rung 0) or the replica stored for this chain and rung. Each step starts from the position and tempered "
            "log-density the previous one returned, and the first from the tempered density of the first position.",
  over=["inputs", "configurations"], text="all targets, ladders, chain counts and step counts",
  why="tests check shapes only", files=[S + "parallel_tempering.py", R + "logPDF.py"],
  mech=[("ParallelTempering._individual_step_body, _ensemble_step", S + "parallel_tempering.py"),
        ("TemperedPDF.tempered_log_pdf", R + "logPDF.py")]),
 dict(id="C10", title="A run fills every buffer exactly, in order, with matching rows",
  statement="In a run of any bundle, each recording buffer of the training and of the production phase is written from "
            "its first to its last row by consecutive non-overlapping writes that end exactly at its end: no sample is "
            "lost, overwritten or left empty. Every recorded position has its log-probability in the same row and its "
            "acceptance flag in one of the acceptance buffers. The loss buffer is filled the same way by the "
            "trainings. What has not been written yet is minus infinity.",
  over=["configurations", "histories"], text="all numbers of chains, dimensions, loops, steps, epochs and thinning factors",
  why="tests run one small configuration of two bundles and look at shapes",
  files=[B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", "src/flowMC/Sampler.py", S + "take_steps.py", S + "train_model.py",
         S + "update_state.py", R + "buffers.py"],
  mech=[("RQSpline_MALA_Bundle.__init__", B + "RQSpline_MALA.py"), ("RQSpline_MALA_PT_Bundle.__init__", B + "RQSpline_MALA_PT.py"),
        ("Sampler.sample", "src/flowMC/Sampler.py")]),
 dict(id="C11", title="Training and production are kept apart",
  statement="A run starts in the training phase and switches to production exactly once, after all training loops. "
            "Positions, log-probabilities and acceptance flags go to the training buffers before the switch and to the "
            "production buffers after it, never to the others. The flow is trained before the switch only, on the "
            "positions recorded so far; after it neither the model nor the optimizer state changes any more.",
  over=["configurations", "histories"], text="all numbers of training and production loops, steps and chains, every bundle",
  why="tests run one training and one production loop and look at shapes",
  files=[B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", "src/flowMC/Sampler.py", S + "update_state.py", S + "lambda_function.py"],
  mech=[("RQSpline_MALA_Bundle.__init__", B + "RQSpline_MALA.py"), ("RQSpline_MALA_PT_Bundle.__init__", B + "RQSpline_MALA_PT.py")]),
 dict(id="C12", title="Global steps propose from the model trained last",
  statement="Whenever a bundle takes global steps, in training or production, the flow the proposals are drawn from and "
            "scored with is the model resource as it is at that moment, and that model is the outcome of the trainings "
            "made so far in this run (not the initial model or an earlier copy).",
  over=["configurations", "histories"], text="all numbers of loops and trainings, every bundle",
  why="a stale copy of the model still gives valid chains, so tests on shapes, finiteness or even on the samples pass",
  files=[B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", S + "lambda_function.py", S + "train_model.py", K + "NF_proposal.py"],
  mech=[("RQSpline_MALA_Bundle.__init__ (update_model)", B + "RQSpline_MALA.py"), ("Lambda.__call__", S + "lambda_function.py")]),
 dict(id="C29", title="All steps of a run target one and the same density",
  statement="All local, global and tempered steps a bundle takes target the same density at temperature one: the "
            "caller's log-density on the caller's data (tempered steps: log-density over temperature, plus the "
            "log-prior where one is given), the coldest rung of the temperature ladder is at temperature one, and every "
            "replica starts from a point, not from unfilled memory.",
  over=["inputs", "configurations"], text="all targets, priors, data, temperatures and step counts, every bundle",
  why="tests look at shapes, and mixing two targets leaves every output well-formed",
  files=[B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", S + "take_steps.py", S + "parallel_tempering.py", R + "logPDF.py"],
  mech=[("RQSpline_MALA_PT_Bundle.__init__", B + "RQSpline_MALA_PT.py"), ("LogPDF, TemperedPDF", R + "logPDF.py")]),
 dict(id="C22", title="A loaded resource is the one that was saved",
  statement="Loading a resource from the file another resource of its class was saved to gives a resource with the same "
            "contents: every attribute of a buffer (name, data, cursor, cursor axis) and of a state (name, the whole "
            "dictionary), and every array and parameter of a flow. The file is found under the path given, and objects "
            "of different names saved to one place do not overwrite each other.",
  over=["inputs"], text="all buffers, states and models, all contents",
  why="tests check one round trip of one flow-matching model",
  files=[R + "buffers.py", R + "states.py", M + "nf_model/base.py", M + "flowmatching/base.py"],
  mech=[("Buffer.save_resource, load_resource", R + "buffers.py"), ("State.save_resource, load_resource", R + "states.py"),
        ("NFModel.save_model, load_model", M + "nf_model/base.py"), ("FlowMatchingModel.save_model, load_model", M + "flowmatching/base.py")]),
 dict(id="C23", title="A run applies the strategies in order, each on what the last one left",
  statement="Sampler.sample calls, for each name in strategy_order in that order and exactly once, the strategy of that "
            "name with the key, resources and positions its predecessor returned (the sampler's key and resources and "
            "the caller's initial positions for the first one) and the caller's data, and keeps the resources the last "
            "one returned. A name that is no strategy is refused. Resources and strategies given to the constructor are "
            "used as given; otherwise those of the bundle; with neither the sampler is refused.",
  over=["configurations", "histories"], text="all strategy orders, strategies, resources, keys and data",
  why="tests run two bundles whose strategies tolerate a dropped key or stale position",
  files=["src/flowMC/Sampler.py"], mech=[("Sampler.sample, Sampler.__init__", "src/flowMC/Sampler.py")]),
 dict(id="C24", title="A strategy changes only the resources it is configured with",
  statement="Calling a strategy changes nothing but the strategy's own bookkeeping and the resources whose names it was "
            "configured with (directly, or through the state it was configured with). It never changes the caller's "
            "data or positions in place, never replaces the density or kernel it uses, and hands on the resources it "
            "was given.",
  over=["inputs", "configurations"], text="all strategies, resources and data",
  why="tests look at a strategy's outputs, not at what else it touched",
  files=[S + "take_steps.py", S + "parallel_tempering.py", S + "train_model.py", S + "optimization.py", S + "update_state.py",
         S + "lambda_function.py"],
  mech=[("Strategy.__call__ of every strategy", S)]),
 dict(id="C25", title="Compiled code has no hidden state",
  statement="What a compiled (jit) or scanned function computes depends on its arguments and on attributes fixed at "
            "construction only: code compiled once and used again by later calls reads no attribute of a strategy, buffer, "
            "state or optimizer that is changed after construction (its value at the first call would be frozen in), a "
            "compiled function kept from one call to the next holds nothing of the call that made it, and compiled code "
            "changes no Python object.",
  over=["histories"], text="all sequences of calls of all strategies and kernels",
  why="a stale compiled value shows from the second call on, and only if the attribute changed in between",
  files=[S + "take_steps.py", S + "parallel_tempering.py", S + "optimization.py", K + "NF_proposal.py", K + "MALA.py", K + "HMC.py"],
  mech=[("functions passed to filter_jit and scan", S), ("kernel methods", K)]),
 dict(id="C26", title="Target densities pass through jax transformations unchanged",
  statement="A LogPDF or TemperedPDF that jax takes apart and puts together again (as every jit, vmap and scan does) has "
            "the class, density, prior and variables it had before.",
  over=["inputs", "configurations"], text="all densities, priors and variable lists",
  why="tests call the wrappers directly or look at one tempered density",
  files=[R + "logPDF.py"], mech=[("LogPDF.tree_flatten, tree_unflatten", R + "logPDF.py"),
                                 ("TemperedPDF.tree_flatten, tree_unflatten", R + "logPDF.py")]),
 dict(id="C27", title="Every option reaches the component it configures",
  statement="Every option of a bundle takes effect at the component it is named after: step counts and thinning at the "
            "local, global and tempered steppers, step size at the local kernel, flow size and key at the flow, batch "
            "sizes and counts at the trainer and the proposal, learning rate at the optimizer, numbers of chains, "
            "dimensions and temperatures and the maximum temperature at the buffers. Strategies, kernels and the optimizer "
            "keep each constructor argument. The optimizer and the global kernel start from the model resource.",
  over=["configurations"], text="all values of all options",
  why="tests use default or equal values, where swapped or dropped options do not show",
  files=[B + "RQSpline_MALA.py", B + "RQSpline_MALA_PT.py", S + "take_steps.py", S + "train_model.py",
         S + "parallel_tempering.py", S + "optimization.py", R + "optimizer.py", K + "HMC.py", K + "MALA.py", K + "NF_proposal.py"],
  mech=[("RQSpline_MALA_Bundle.__init__", B + "RQSpline_MALA.py"), ("RQSpline_MALA_PT_Bundle.__init__", B + "RQSpline_MALA_PT.py"),
        ("constructors of strategies and kernels", S)]),
 dict(id="C30", title="Updates of buffers and states change exactly what they name",
  statement="Updating a buffer replaces exactly the rows from the given start on (the first row by default), along the"
            " buffer's own cursor axis, and leaves every other row, its name, cursor axis and shape as they were; a "
            "new buffer has the shape asked for, is filled with minus infinity and has its cursor at the first row. "
            "Updating a state sets each of the given keys to the value given for it, in order, whatever the state "
            "held, and leaves all other entries alone; the UpdateState strategy does this to the state it names with "
            "the keys and values it was given, every time it runs. The Lambda strategy calls its function exactly once"
            " with the key, resources, positions and data it received. Both hand on key, resources and positions "
            "unchanged.",
  over=["inputs", "histories"], text="all shapes, axes, starts, keys, values, functions and earlier contents",
  why="tests update one buffer at one start along one axis and one state key once",
  files=[R + "buffers.py", R + "states.py", S + "update_state.py", S + "lambda_function.py"],
  mech=[("Buffer.__init__, Buffer.update_buffer", R + "buffers.py"), ("State.update", R + "states.py"),
        ("UpdateState.__call__", S + "update_state.py"), ("Lambda.__call__", S + "lambda_function.py")]),
]

NA = [
]
