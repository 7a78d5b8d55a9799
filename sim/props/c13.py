"""C13: a failed step leaves everything as it was."""
from sim import core
from sim.core import Violation, Injected, sut

LEVEL = "exploration"
RUNS = {"quick": 110, "thorough": 6000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "strategy calls"
RULE = ("A run draws a schedule of strategies (serial, flow-proposal, tempering, training, optimisation, Lambda, state "
        "update) and makes chosen calls fail: the density raises while being traced or at the n-th evaluation at run time, "
        "the flow's training raises at the n-th epoch, a resource is missing, of the wrong kind or too small, a state entry "
        "is missing. After each failure all resources and the strategy are compared with before, the call is repeated "
        "without the fault and its result compared bitwise with a twin that never failed. Non-trivial: a fault fired. "
        "Distinct: different event logs.")
STATE_MEASURE = "(strategy, fault, number of failures before success) combinations reached"
REAL = ["TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "TrainModel", "AdamOptimization", "Lambda",
        "UpdateState", "Sampler", "Buffer", "State", "Optimizer", "MALA", "HMC", "GaussianRandomWalk", "NFProposal", "NFModel.train"]
STUB = ["flow: diagonal Gaussian whose training can be made to raise"]
ASSUMPTIONS = ["the entries of the sampler's resource dictionary may be re-bound to equal objects"]

KINDS = ["serial", "group", "pt", "train", "adam", "lambda", "update"]
FAULTS = {"serial": ["trace", "eval", "eval", "missing:P", "missing:logpdf", "missing:k", "wrong:P", "wrong:A", "wrong:state", "small:L", "small:A",
                     "small:P", "entry:L", "missing:state"],
          "group": ["trace", "eval", "eval", "missing:B", "missing:nf", "wrong:L", "small:P", "small:B", "entry:B"],
          "pt": ["trace", "eval", "eval", "missing:hot", "missing:lad", "wrong:lad", "wrong:tp", "wrong:kp", "entry:training", "missing:tp",
                 "wrong:state"],
          "train": ["epoch", "epoch", "missing:model", "missing:opt", "missing:T", "missing:loss", "wrong:opt", "wrong:model", "wrong:T",
                    "wrong:loss", "small:loss"],
          "adam": ["trace", "eval", "bounds"], "lambda": ["raise", "raise_late"], "update": ["missing:state", "wrong:state"]}


def gen(r, i, tier):
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["serial", "serial", "group", "group", "pt", "pt", "train", "train", "adam", "lambda", "update"])
        fs = []
        for _ in range(r.choice([0, 1, 1, 2])):
            fs.append([r.choice(FAULTS[k]), r.choice([1, 1, 2, 3, 5, 9, 20])])
        ops.append(dict(kind=k, faults=fs))
    if not any(o["faults"] for o in ops):
        ops[-1]["faults"].append([r.choice(FAULTS[ops[-1]["kind"]]), r.choice([1, 2, 5])])
    return dict(ops=ops, n_chains=r.choice([1, 2, 3]), d=r.choice([1, 2]), n=r.choice([1, 2, 4]), thin=r.choice([1, 1, 2]),
                kernel=r.choice(["grw", "grw", "mala"]), batch=r.choice([0, 0, 2]), epochs=r.choice([1, 2, 3]),
                training=r.random() < 0.6, start=r.choice([0, 0, 3]), through=r.choice(["direct", "direct", "sampler"]))


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    yield from shrink_list(scn, "ops", 1)
    for k, o in enumerate(scn["ops"]):
        for q in range(len(o["faults"])):
            c = set_path(scn, ["ops", k, "faults"], o["faults"][:q] + o["faults"][q + 1:])
            if any(x["faults"] for x in c["ops"]):
                yield c
        for q in range(len(o["faults"])):
            yield from shrink_int(scn, ["ops", k, "faults", q, 1], 1)
    for f, lo in (("n_chains", 1), ("d", 1), ("n", 1), ("batch", 0), ("epochs", 1), ("start", 0)):
        yield from shrink_int(scn, [f], lo)


class Bomb:
    """Host-side fault switch reached from inside compiled code."""

    def __init__(self):
        self.mode, self.left, self.fired = "", 0, 0

    def at_trace(self):
        if self.mode == "trace":
            self.left -= 1
            if self.left <= 0:
                self.fired += 1
                raise Injected("density raises while traced")

    def at_eval(self, x):
        if self.mode == "eval":
            self.left -= 1
            if self.left <= 0:
                self.fired += 1
                raise Injected("density raises at run time")
        return x


class World:
    def __init__(self, scn):
        import numpy as np
        import jax
        import jax.numpy as jnp
        from sim import core, world as W
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
        from flowMC.resource.kernel.MALA import MALA
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.optimizer import Optimizer
        from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.strategy.train_model import TrainModel
        from flowMC.strategy.optimization import AdamOptimization
        from flowMC.strategy.lambda_function import Lambda
        from flowMC.strategy.update_state import UpdateState
        self.scn, self.bomb = scn, Bomb()
        bomb = self.bomb
        C, d, n = scn["n_chains"], scn["d"], scn["n"]

        @jax.custom_jvp
        def hook(v):
            return jax.pure_callback(lambda a: np.asarray(bomb.at_eval(a), core.flt()), jax.ShapeDtypeStruct((), core.flt()), v,
                                     vmap_method="sequential")

        @hook.defjvp
        def _(primals, tangents):
            return hook(*primals), jnp.zeros(())

        def f(x, data):
            bomb.at_trace()
            v = -0.5 * jnp.sum((x - data["m"]) ** 2)
            return v + 0.0 * hook(jax.lax.stop_gradient(v))

        class TrainFlow(W.TinyFlow):
            def train_epoch(self, rng, optim, state, data, batch_size):
                if bomb.mode == "epoch":
                    bomb.left -= 1
                    if bomb.left <= 0:
                        bomb.fired += 1
                        raise Injected("training raises")
                return W.TinyFlow.train_epoch(self, rng, optim, state, data, batch_size)

        self.f = f
        g = np.random.default_rng(scn["seed"])
        x0 = g.normal(size=(C, d)).astype(core.flt())
        kern = GaussianRandomWalk(0.7) if scn["kernel"] == "grw" else MALA(0.7)
        flow = TrainFlow(d, jnp.zeros(d) + 0.2)
        m = n // scn["thin"]
        size = m * (len(scn["ops"]) + 1) + 3
        R = {"logpdf": W.LogPDF(f, n_dims=d), "k": kern, "kp": kern, "nf": NFProposal(flow), "model": flow, "opt": Optimizer(flow, learning_rate=0.1),
             "state": W.State({**{k: k for k in "PLAB"}, "training": scn["training"]}, name="state"),
             "tp": W.TemperedPDF(f, lambda x, dd: 0.0, n_dims=d), "hot": W.Buffer("hot", (C, 2, d), 2), "lad": W.Buffer("lad", (3,), 0),
             "T": W.Buffer("T", (C, 5, d), 1), "loss": W.Buffer("loss", (scn["epochs"] * (len(scn["ops"]) + 1),), 0),
             "bystander": W.Buffer("bystander", (3,), 0)}
        R["hot"].update_buffer(jnp.asarray(g.normal(size=(C, 2, d)), core.flt()))
        R["lad"].update_buffer(jnp.asarray([1.0, 1.7, 4.0]))
        R["T"].update_buffer(jnp.asarray(g.normal(size=(C, 5, d)), core.flt()))
        for b, sh in (("P", (C, size, d)), ("L", (C, size)), ("A", (C, size)), ("B", (C, size))):
            R[b] = W.Buffer(b, sh, 1)
        self.R, self.key, self.x = R, jax.random.PRNGKey(scn["seed"] & 0xFFFF), jnp.asarray(x0)
        self.data = {"m": jnp.asarray(0.3)}
        self.lam = {"mode": "", "n": 0}

        def fn(key, res, pos, data):
            if self.lam["mode"] == "raise":
                self.bomb.fired += 1
                raise Injected("lambda raises")
            res["bystander"].update_buffer(jnp.ones(1) * float(np.asarray(pos).sum()), 1)
        S = {}
        for o in {o["kind"] for o in scn["ops"]}:
            if o == "serial":
                S[o] = TakeSerialSteps("logpdf", "k", "state", ["P", "L", "A"], n, thinning=scn["thin"], chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
                S[o].set_current_position(scn["start"])
            elif o == "group":
                S[o] = TakeGroupSteps("logpdf", "nf", "state", ["P", "L", "B"], n, thinning=scn["thin"], chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
            elif o == "pt":
                S[o] = ParallelTempering(n, "tp", "kp", ["hot", "lad"], "state")
            elif o == "train":
                S[o] = TrainModel("model", "T", "opt", loss_buffer_name="loss", n_epochs=scn["epochs"], batch_size=4, n_max_examples=8)
            elif o == "adam":
                S[o] = AdamOptimization(f, n_steps=n, noise_level=0.5, bounds=jnp.array([[-3.0, 3.0]] * d))
            elif o == "lambda":
                S[o] = Lambda(fn)
            else:
                S[o] = UpdateState("state", ["mark", "B"], [7, "B"])
        self.S = S

    def snap(self):
        from sim import world as W
        return W.snap_resources(self.R)

    def progress(self, kind):
        """The strategy's settings and progress."""
        from sim.world import settings
        import numpy as np
        out = {}
        for k, v in settings(self.S[kind]).items():
            if hasattr(v, "dtype"):
                out[k] = np.array(v)
            elif isinstance(v, (int, float, str, bool)) or (isinstance(v, list) and all(isinstance(q, (int, float, str, bool)) for q in v)):
                out[k] = repr(v)
        return out


def run(scn, ctx):
    if scn["through"] == "sampler":
        return run_sampler(scn, ctx)
    from sim import world as W
    a, twin = World(scn), World(scn)
    for j, op in enumerate(scn["ops"]):
        kind = op["kind"]
        n_failed = 0
        for fault, n in op["faults"]:
            what = f"op {j} {kind} with fault {fault} ({n})"
            before, prog, ids = a.snap(), a.progress(kind), {k: id(v) for k, v in a.R.items()}
            undo = inject(a, kind, fault, n)
            if undo is None:
                continue
            mid = {k: id(v) for k, v in a.R.items()}
            raised = None
            try:
                out = a.S[kind](a.key, a.R, a.x, a.data)
            except Exception as e:
                raised = e
            reached = undo()
            if raised is None:
                if reached:
                    raise Violation("failure-swallowed", f"{what}: the fault fired but the call returned normally")
                # the fault was never reached (fewer evaluations than n): this call simply succeeded
                ctx.probes["fault not reached"] += 1
                a.key, a.R, a.x = out
                try_twin(twin, a, kind, what, ctx)
                n_failed = -1
                break
            n_failed += 1
            ctx.faults[f"{kind}: {fault}"] += 1
            after = a.snap()
            diff = W.diff_resources(before, after)
            if diff:
                raise Violation("changed-by-failure", f"{what}: raised {type(raised).__name__}, but resources {diff} changed")
            if not W.same(prog, a.progress(kind)):
                p2 = a.progress(kind)
                raise Violation("progress-changed-by-failure", f"{what}: the strategy's own state changed: "
                                f"{ {k: (prog.get(k), p2.get(k)) for k in set(prog) | set(p2) if not W.same(prog.get(k), p2.get(k))} }")
            ctx.log(what, type(raised).__name__)
            ctx.state(kind, fault, n_failed)
        ctx.steps += 1
        if n_failed >= 0:
            with sut(f"op {j} {kind} repeated without the fault"):
                a.key, a.R, a.x = a.S[kind](a.key, a.R, a.x, a.data)
            try_twin(twin, a, kind, f"op {j} {kind} repeated after faults {op['faults']}", ctx)


def try_twin(twin, a, kind, what, ctx):
    import numpy as np
    from sim import world as W
    from sim.props.c15 import same_key
    with sut(f"{what} (twin without failure)"):
        twin.key, twin.R, twin.x = twin.S[kind](twin.key, twin.R, twin.x, twin.data)
    diff = W.diff_resources(a.snap(), twin.snap())
    if diff or not same_key(a.key, twin.key) or not np.array_equal(np.asarray(a.x), np.asarray(twin.x)):
        raise Violation("repeat-differs", f"{what}: differs from a call that never failed in "
                        f"{diff + (['key'] if not same_key(a.key, twin.key) else []) + (['positions'] if not np.array_equal(np.asarray(a.x), np.asarray(twin.x)) else [])}")
    if not W.same(a.progress(kind), twin.progress(kind)):
        raise Violation("repeat-differs", f"{what}: the strategy's own progress differs from one that never failed")
    ctx.probes["calls compared with an unfailed twin"] += 1
    ctx.log(what, np.asarray(a.x))


def inject(w, kind, fault, n):
    """Arms the fault; returns a function that removes it and tells whether it fired (None: not applicable)."""
    import jax.numpy as jnp
    from sim import world as W
    b = w.bomb
    if fault in ("trace", "eval", "epoch"):
        b.mode, b.left, f0 = fault, n, b.fired

        def undo():
            b.mode = ""
            return b.fired > f0
        if fault == "trace":
            b.left = 1
            import jax
            jax.clear_caches()
        return undo
    if fault in ("raise", "raise_late"):
        w.lam["mode"], f0 = "raise", b.fired

        def undo():
            w.lam["mode"] = ""
            return b.fired > f0
        return undo
    if fault == "bounds":
        st = w.S["adam"]
        old = st.bounds
        # the strategy is handed a chain of another dimension than its box
        x = w.x
        w.x = jnp.concatenate([x] * 3, axis=1) if w.scn["d"] > 1 else None
        if w.x is None:
            w.x = x
            return None

        def undo():
            w.x = x
            st.bounds = old
            return True
        return undo
    mode, name = fault.split(":")
    if mode == "entry":
        s = w.R["state"].data
        items = list(s.items())
        del s[name]

        def undo():
            put_back(s, items, name)
            return True
        return undo
    old = w.R[name]
    items = list(w.R.items())
    if mode == "missing":
        del w.R[name]
    elif mode == "wrong":
        w.R[name] = W.State({"x": 1}, name="wrong") if name != "state" else W.Buffer("wrong", (2,), 0)
    elif mode == "small":
        sh = list(old.data.shape)
        sh[old.cursor_dim] = 0
        w.R[name] = W.Buffer("small", tuple(sh), old.cursor_dim)
        if w.scn["n"] // w.scn["thin"] == 0 and name != "loss":
            w.R[name] = old
            return None
    else:
        raise KeyError(fault)

    def undo():
        put_back(w.R, items, name)
        return True
    return undo


def put_back(d, items, name):
    """Restore one entry of a dictionary, in its place; whatever else happened to it stays."""
    now = dict(d)
    d.clear()
    for k, v in items:
        if k == name:
            d[k] = v
        elif k in now:
            d[k] = now[k]
    d.update({k: v for k, v in now.items() if k not in d})


def run_sampler(scn, ctx):
    """The same failures inside Sampler.sample: what completed before is kept."""
    from sim import world as W
    from flowMC.Sampler import Sampler
    a, twin = World(scn), World(scn)
    at = next(j for j, o in enumerate(scn["ops"]) if o["faults"])
    fault, n = scn["ops"][at]["faults"][0]
    kinds = [o["kind"] for o in scn["ops"]]
    names = [f"{j}:{k}" for j, k in enumerate(kinds)]
    ran = []
    state = {}

    def mk(w, j, k, arm):
        def before(name, key, res, x, data):
            w.R, w.x = res, x
            ran.append(j)
            if arm and j == at:
                state["undo"] = inject(w, k, fault, n)
                state["x"] = w.x
        return W.Spy(names[j], w.S[k], before=before)
    if fault == "bounds" or (fault == "raise_late"):
        fault = {"bounds": "trace", "raise_late": "raise"}[fault]
    smp = Sampler(scn["d"], scn["n_chains"], a.key, resources=a.R, strategies={nm: mk(a, j, k, True) for j, (nm, k) in enumerate(zip(names, kinds))},
                  strategy_order=names)
    raised = None
    try:
        smp.sample(a.x, a.data)
    except Exception as e:
        raised = e
    u = state.get("undo")
    reached = u() if u else False
    if u is None or (raised is None and not reached):
        ctx.probes["fault not reached"] += 1
        return
    if raised is None:
        raise Violation("failure-swallowed", f"{names} with fault {fault} at {at}: sample() returned normally")
    if ran != list(range(at + 1)):
        raise Violation("ran-after-failure", f"{names} with fault {fault} at {at}: strategies {ran} were called")
    smp2 = Sampler(scn["d"], scn["n_chains"], twin.key, resources=twin.R, strategies=dict(zip(names, [twin.S[k] for k in kinds])),
                   strategy_order=names[:at])
    with sut("the strategies before the failure"):
        smp2.sample(twin.x, twin.data)
    diff = W.diff_resources(W.snap_resources(smp.resources), W.snap_resources(smp2.resources))
    if diff:
        raise Violation("completed-work-lost", f"{names} with fault {fault} at {at}: the sampler's resources {diff} differ from those of the "
                        "strategies completed before the failure")
    ctx.faults[f"{kinds[at]}: {fault} inside sample()"] += 1
    ctx.steps += len(ran)
    ctx.state("sampler", kinds[at], fault, at)
    ctx.log(ran, fault, type(raised).__name__)
