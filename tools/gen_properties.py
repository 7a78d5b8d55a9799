"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json, pathlib
S = "src/flowMC/"
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))


TS, PT = "strategy/take_steps.py", "strategy/parallel_tempering.py"
K = ["resource/kernel/" + f for f in ("MALA.py", "HMC.py", "Gaussian_random_walk.py", "NF_proposal.py")]
BUN = ["resource_strategy_bundle/RQSpline_MALA.py", "resource_strategy_bundle/RQSpline_MALA_PT.py"]

p("C01", "Sampling leaves the target distribution invariant",
  "With adaptation off, every sequence of local steps, flow-proposal steps and tempering steps leaves the target distribution invariant: chains distributed as the target before a strategy runs are distributed as the target after it, and tempered walkers stay distributed as their own tempered densities. This holds for every kernel (random walk, MALA, HMC, flow proposal), step size, condition matrix, flow model, proposal batch size, temperature ladder and target, including targets with hard boundaries and targets that depend on the user's data.",
  ["schedules", "configurations", "inputs"],
  "all strategy schedules, all kernel/flow/ladder settings, all targets with a computable density, over the sampler's randomness",
  "The tests only look at shapes and at whether a handful of chains drift roughly the right way; a wrong acceptance ratio for some setting (a metric, a batch size, the cold/hot pair) gives plausible chains.",
  [TS, PT] + K,
  [("Metropolis-Hastings acceptance of each kernel", K[0]), ("leapfrog + Hamiltonian", K[1]), ("independence MH with the flow density", K[3]), ("replica exchange ratio", PT), ("log-density recomputed when a strategy starts", TS)],
  ["positions returned by each strategy", "position buffers", "tempered positions buffer"])
p("C02", "Chains never enter a region where the density is undefined",
  "If a chain (or tempered walker) stands where the log density is finite, no step of any kernel or exchange ever moves it to, or records, a position where the log density is NaN or minus infinity, however often and wherever the density (or a flow's density of a proposal) fails in this way. Such a failure leads to an ordinary rejection: it does not corrupt the chain's position, its recorded log density or any other chain.",
  ["fault_sequences", "schedules", "inputs"],
  "all placements of NaN/-inf density (and gradient) faults in parameter space and all schedules of kernels crossing them",
  "No test has a target with an undefined region; the acceptance comparison only survives NaN through the direction in which it is written.",
  [TS, PT] + K,
  [("accept only if log_uniform < ratio, false for NaN", K[0]), ("same", K[1]), ("same", K[2]), ("same", K[3]), ("exchange acceptance", PT)],
  ["position/log-density/acceptance buffers", "returned positions", "tempered positions"])
p("C03", "Every recorded step is self-consistent",
  "In every record of every chain the stored log density is the target's log density, evaluated with the user's data, at the stored position; a step flagged as rejected repeats the previous position and log density exactly and a step flagged as accepted moved the chain. The position a strategy returns is the chain's state after its last step, and the next strategy's chain starts from it.",
  ["schedules", "configurations", "inputs"],
  "all schedules of strategies and kernels, chain counts, batch sizes, thinnings and user data",
  "Tests check buffer shapes and that something was written, never that position, log density and flag of the same step belong together.",
  [TS] + K,
  [("where(do_accept, ...) on position and log density alike", K[0]), ("buffers updated together at the same cursor", TS)],
  ["position, log-density and acceptance buffers after every strategy"])
p("C04", "Every retained step is recorded exactly once, in order",
  "Across any schedule of strategies, the steps a chain takes appear in its buffers exactly once, in the order taken and in the row of that chain; with thinning k exactly every k-th step is kept, and thinning changes only what is recorded, not the chain. Training and production records never mix: after a bundle run every cell of the training and production position and log-density buffers holds a step of that phase, with no gap, overwrite or unfilled cell.",
  ["schedules", "configurations", "histories"],
  "all step counts, thinnings (dividing or not, larger than the step count), loop counts, chain counts, batch sizes, interleavings of local and global steps",
  "Tests run one loop shape with thinning 1; cursor arithmetic shared between two steppers and sized separately by the bundle only misfits for other combinations.",
  [TS, "resource/buffers.py", "strategy/update_state.py"] + BUN,
  [("current_position advanced by n_steps // thinning", TS), ("update_global_step/update_local_step/reset_steppers", BUN[0]), ("buffer sizes", BUN[0]), ("state redirects the target buffers", "strategy/update_state.py")],
  ["buffers after each strategy and at the end of a run"],
  [("current_position", "write cursor of a stepper", TS)])
p("C05", "Adaptation feeds training and stops in production",
  "In a bundle run, from the moment production starts nothing that shapes the transition kernel changes any more: the flow used for proposals, the trained model, the optimizer state, the loss record, the temperature ladder and the kernel settings stay bitwise the same, while the walkers (tempered ones included) keep moving. During training, every flow-proposal step uses the model produced by the latest training, and the production phase uses the last trained model.",
  ["schedules", "configurations", "histories"],
  "all bundle configurations (both bundles, any loop and epoch counts) and every strategy boundary of the run",
  "Tests only run the bundles to completion; a frozen or stale flow, or a ladder still adapting in production, produces chains of the right shape.",
  BUN + [PT, "strategy/train_model.py", "strategy/update_state.py"],
  [("update_model copies the trained model into the global kernel", BUN[0]), ("training flag read by tempering", PT), ("strategy order", BUN[1])],
  ["resources before and after each strategy of the run"],
  [("training flag", "whether the ladder adapts", "resource/states.py")])
p("C06", "Chains are independent of each other and of batching",
  "Outside training, what happens to one chain never affects another: changing one chain's start, or making its density fail, leaves every other chain's positions, log densities and acceptance flags unchanged. Splitting the chains into batches of any size gives the same results as running them all at once.",
  ["inputs", "fault_sequences", "configurations"],
  "all chain counts, batch sizes (not only divisors), kernels, and which chain is disturbed or fails",
  "Tests use one chain count and batch size and never compare two runs chain by chain.",
  [TS, PT, "strategy/optimization.py", K[3]],
  [("one key per chain, vmap over chains", TS), ("batch slicing and concatenation", TS), ("vmap over chains in tempering", PT)],
  ["per-chain records of paired runs"])
p("C07", "Same seed, same results, whatever else runs",
  "A run is a pure function of its seed, configuration, initial positions and data: repeating it, in the same or another process and under any hash seed, gives bitwise identical records, models and states. Other samplers constructed, run, failed or interleaved with it in any order in the same process change nothing in it, and a different seed gives different chains.",
  ["schedules", "histories", "configurations"],
  "all interleavings of several samplers' strategies and internal operations, and all process environments",
  "Tests never run two samplers and compare; leaked state in classes, defaults, caches or resources shows only for particular orders.",
  ["Sampler.py", TS, PT, "strategy/train_model.py"] + BUN,
  [("explicit key threading", "Sampler.py"), ("resources owned by the instance", BUN[0]), ("jit caches keyed by strategy instance", TS)],
  ["digest of all resources after each strategy"])
p("C08", "No randomness is reused",
  "Every random decision of a run uses fresh randomness: no two steps, chains, temperatures, proposal batches or strategy calls ever receive the same random key, and the key a strategy hands on was not consumed inside it.",
  ["schedules", "configurations"],
  "all schedules of strategies, chain counts, temperatures, batch sizes, flow proposal batches and loops",
  "Reused keys give chains that look random; the tests never look at keys or at correlations between chains.",
  [TS, PT, K[3], "strategy/train_model.py", "Sampler.py", "strategy/optimization.py"],
  [("split per strategy, per chain, per step, per temperature", TS), ("split per temperature", PT), ("split per proposal batch", K[3]), ("key threading", "Sampler.py")],
  ["keys received by kernels and models, recorded through the buffers", "key returned by every strategy"])
p("C09", "Saved resources survive crashes and reload exactly",
  "A buffer, state, flow or flow-matching model saved without error and loaded later, in a fresh process and into a differently initialised template, equals what was saved: data, names, cursors, types, and behaviour. If a write is interrupted, comes up short or fails at any byte, or reading fails, then saving or loading raises or a complete value saved under that name is returned; a partial or mixed resource is never returned silently, and the live resource and other files are untouched.",
  ["crash_points", "fault_sequences", "histories"],
  "all histories of create/update/save/crash/load over several resources and all byte offsets of interruption",
  "Tests save and load one model once on a healthy disk; nothing saves a state or buffer, or interrupts a write.",
  ["resource/buffers.py", "resource/states.py", "resource/model/nf_model/base.py", "resource/model/flowmatching/base.py"],
  [("npz members with CRC", "resource/buffers.py"), ("npz members with CRC", "resource/states.py"), ("leaf-wise serialisation, deserialised into a template", "resource/model/nf_model/base.py")],
  ["file contents", "loaded resources"])
p("C10", "Training keeps the best epoch and its books",
  "Training a flow returns the parameters and optimizer state of the epoch with the lowest finite loss of that call, or the untouched originals if no epoch had one, so non-finite losses, gradients or data never enter the model or later strategies; the loss of every epoch is recorded once, in order, after those of earlier calls. The examples used are exactly finite recorded samples from the most recent window of every chain.",
  ["fault_sequences", "histories", "configurations"],
  "all sequences of trainings, fault placements in losses/gradients/data, window, batch and example counts",
  "Tests train once on clean data and check that the loss is finite.",
  ["strategy/train_model.py", "resource/model/nf_model/base.py", "resource/model/flowmatching/base.py", "resource/optimizer.py"],
  [("best_model/best_state/best_loss", "resource/model/nf_model/base.py"), ("finite filter, history window, resampling", "strategy/train_model.py"), ("loss buffer cursor", "strategy/train_model.py")],
  ["model, optimizer and loss buffer after each training", "data handed to the model's training"])
p("C11", "A flow stays a bijection whose density matches its samples",
  "After any history of training with any optimizer settings, saving, reloading, and use as a proposal, a flow's inverse undoes its forward map with opposite log determinants equal to those of the actual maps, and its log density is the normalised log density of exactly the distribution its sampler draws from. This covers the spline flow, RealNVP and the flow-matching model, with any base distribution and data scaling.",
  ["histories", "configurations", "inputs"],
  "all training histories (epochs, learning rates, data) interleaved with save/crash/load, for all architectures",
  "Tests check inverses only for freshly initialised flows, where every layer is nearly the identity, and never compare samples with densities.",
  ["resource/model/common.py", "resource/model/nf_model/rqSpline.py", "resource/model/nf_model/realNVP.py", "resource/model/nf_model/base.py", "resource/model/flowmatching/base.py", "resource/optimizer.py"],
  [("layer order of forward and inverse scans", "resource/model/nf_model/rqSpline.py"), ("spline forward/inverse", "resource/model/nf_model/rqSpline.py"), ("non-trainable masks", "resource/model/common.py"), ("ODE with divergence", "resource/model/flowmatching/base.py")],
  ["forward, inverse, log_prob and sample of the model after each step of the history"])
p("C12", "Tempering conserves walkers and keeps a valid ladder",
  "An exchange only permutes the walkers of one chain between neighbouring temperatures, always accepting a swap that the exchange ratio favours and never one it practically excludes, and each walker moves under the density of its own temperature (likelihood to the power 1/T times the prior). The ladder stays finite, ordered, pinned at its first and last temperature, adapts in training towards equal exchange rates, and is untouched otherwise.",
  ["schedules", "configurations", "inputs"],
  "all sequences of tempering calls, ladders, chain and temperature counts, targets and training flags",
  "Tests check output shapes of single calls.",
  [PT, "resource/logPDF.py", BUN[1]],
  [("exchange scan", PT), ("temperature adaptation", PT), ("tempered density", "resource/logPDF.py")],
  ["tempered positions, cold positions and temperatures before and after each call"])
p("C13", "A failed step leaves everything as it was",
  "If a strategy fails part way (the density raises, a resource is missing or has the wrong kind), it raises to the caller and every resource and the strategy's own progress are as before the call; calling it again once the cause is gone gives exactly the result the call would have given without the failure. A sampler whose strategy failed still holds the resources of the strategies completed before it.",
  ["fault_sequences", "crash_points", "schedules"],
  "all failure points (which evaluation, which strategy of the schedule) and repetitions of failures",
  "No test makes a density or strategy fail.",
  [TS, PT, "strategy/train_model.py", "Sampler.py", "resource/buffers.py"],
  [("buffers written only after sampling completed", TS), ("same", PT), ("model stored after training", "strategy/train_model.py"), ("resources replaced per strategy", "Sampler.py")],
  ["resources before and after a failed call, and after its repetition"])
p("C14", "Optimisation respects bounds and reports true values",
  "Every position returned by the optimiser lies inside the given box, for every start inside or outside it, step count, learning rate and noise level; each chain is optimised with its own randomness and independently of the others, even when another chain's objective fails. The reported log densities are the target's at the returned positions with the user's data, resources are untouched, and without noise the objective of a smooth unimodal target improves.",
  ["inputs", "fault_sequences", "configurations"],
  "all starts, boxes (shared or per dimension), settings and objective failures in single chains",
  "Tests use one unbounded and one bounded example.",
  ["strategy/optimization.py"],
  [("projection after each update", "strategy/optimization.py"), ("vmap over chains with split keys", "strategy/optimization.py")],
  ["returned positions and log densities"])
p("C15", "The sampler runs exactly the listed strategies in order",
  "A run executes the strategies named in the order list, each exactly as often and in the order listed, and each receives the key, resources and positions its predecessor returned and the caller's data unchanged; the first receives the seed and the caller's initial positions. An unknown name raises before that strategy and anything after it runs, with everything before it kept.",
  ["schedules", "programs", "fault_sequences"],
  "all strategy lists with repeats, custom strategies replacing resources, keys and positions, unknown names and failures at any place",
  "Tests run a few fixed lists and look at the final shapes only.",
  ["Sampler.py", "strategy/lambda_function.py", "strategy/update_state.py", "strategy/base.py"] + BUN,
  [("loop over strategy_order", "Sampler.py"), ("Lambda passes key, resources, positions on", "strategy/lambda_function.py")],
  ["arguments each strategy receives", "resources held by the sampler"])
p("C16", "Buffers and states hold exactly what was written",
  "After any sequence of writes, reads and resets, a buffer equals a plain array to which the same writes were applied along its record axis at the given offset, with unwritten cells still marked as unwritten; a write that does not fit is refused and changes nothing. A state equals a plain dictionary with the same updates, and no two resources ever share storage.",
  ["histories", "inputs"],
  "all histories of operations on several buffers and states of any shape and record axis",
  "Tests write one full-size array.",
  ["resource/buffers.py", "resource/states.py", "strategy/update_state.py"],
  [("update_buffer along cursor_dim", "resource/buffers.py"), ("update", "resource/states.py")],
  ["contents after every operation"])
p("C17", "Chains make progress and reach the target",
  "Started from any position with positive density, including far in the tail or inside a single mode, every kernel with a reasonable step size keeps accepting moves and an ensemble of chains reaches the target distribution within a bounded number of steps; tempering carries cold chains between separated modes that the local kernel cannot cross; and chains resume moving within a bounded number of steps once a density fault ends.",
  ["schedules", "fault_sequences", "inputs"],
  "all starts, kernels and schedules with bounded faults, over the sampler's randomness",
  "Tests run too few steps to tell a slow or stuck chain from a moving one.",
  [TS, PT] + K,
  [("kernels' accept/reject", K[0]), ("replica exchange", PT), ("flow proposals", K[3])],
  ["positions and acceptance flags over time"])
p("C18", "A composed base distribution factorises",
  "The log density of a composed distribution is the sum of its parts' log densities on their coordinate ranges.",
  ["inputs"], "all part lists and partitions",
  "Only one composition is tested.",
  ["resource/model/common.py"], [("Composable", "resource/model/common.py")], ["log_prob"])
p("C19", "Flow-matching paths join base and data",
  "The conditional path between a base and a data point starts at the one and ends at the other and its velocity is its time derivative.",
  ["inputs"], "all point pairs and times",
  "Tests use one random batch.",
  ["resource/model/flowmatching/base.py"], [("CondOTScheduler, Path", "resource/model/flowmatching/base.py")], ["Path.sample"])
p("C20", "A bundle run does what its configuration says",
  "Every training and production loop of a bundle run takes exactly the configured number of local, flow and tempered steps with the configured step size; every training runs the configured epochs over the configured number of examples from the configured window, in batches of the configured size and with the configured learning rate; the flow has the configured layers, bins and units, and the ladder the configured number of temperatures from 1 to the configured maximum. Reporting progress changes no result.",
  ["configurations", "histories"], "all configurations of the two bundles",
  "Tests run one or two configurations and look at shapes.",
  BUN + [TS, PT, "strategy/train_model.py", "resource/optimizer.py"],
  [("bundle constructors", BUN[0]), ("training loop", "resource/model/nf_model/base.py")],
  ["steps, updates, losses and records of every strategy call"])
p("C21", "A run resumed from saved resources goes on as if it had not stopped",
  "If the process stops between two strategies of a bundle run, a new one that builds the bundle afresh, loads the buffers, states and flow saved at that point and executes the remaining strategies from the same key and positions ends with bitwise the same records, flow, temperatures and walkers as the run that never stopped. Saving changes nothing in the running run, and a checkpoint whose saving failed is refused or complete.",
  ["crash_points", "fault_sequences", "configurations"], "all strategy boundaries, configurations and disk faults",
  "Tests save and load single resources, never within a run.",
  BUN + ["resource/buffers.py", "resource/states.py", "resource/model/nf_model/base.py", "Sampler.py"],
  [("resources by name in every strategy", BUN[1]), ("save and load", "resource/buffers.py")],
  ["resources at the end of the resumed and of the uninterrupted run"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(x["id"], x["title"])
