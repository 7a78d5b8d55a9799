"""C08: no randomness is reused."""
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 110, "thorough": 6000}
TIME_UNIT = "random keys consumed"
RULE = ("Ledger runs: a PRNG implementation registered with JAX records every consumption (split, draw, fold_in) of every key, "
        "inside compiled code too, over a random schedule of real strategies, kernels, flows, training, optimisation and "
        "bundles; no key may be consumed twice and no strategy may return a consumed key. Shared-draw runs: many chains and "
        "temperatures start at one point of a density for which every decision is a coin flip; neither proposals nor decisions "
        "may coincide. Non-trivial: at least one strategy consumed keys. Distinct: different event logs.")
STATE_MEASURE = "(strategy kinds and batch layouts in the schedule) combinations reached"
REAL = ["Sampler", "TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "AdamOptimization", "TrainModel", "MALA", "HMC",
        "GaussianRandomWalk", "NFProposal", "MaskedCouplingRQSpline", "RealNVP", "FlowMatchingModel", "both bundles"]
STUB = ["PRNG: the recording implementation instead of threefry", "flow in part of the runs: diagonal Gaussian"]
ASSUMPTIONS = ["MALA draws the noise of its second gradient evaluation from the same key and throws it away: a second identical "
               "draw from one key is tolerated in runs with MALA"]


def gen(r, i, tier):
    from sim.mcmc import gen_kernel
    k = r.random()
    C, d = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3])
    if k < 0.12:
        n_local, thin = r.choice([(1, 1), (3, 1), (3, 2), (2, 2)])   # a training loop needs records
        return dict(type="bundle", pt=r.random() < 0.6, n_chains=C, n_dims=r.choice([1, 2]), n_local=n_local,
                    n_global=r.choice([1, 4]), train=r.choice([1, 2]), prod=r.choice([1, 2]), epochs=r.choice([1, 2]),
                    n_temps=r.choice([2, 3]), n_tempered=r.choice([1, 2]), batch=r.choice([0, 2]), train_batch=r.choice([3, 64]),
                    n_max=r.choice([8, 20]), nf_batch=r.choice([1, 2, 100]), thin_l=thin)
    if k < 0.20:
        return dict(type="model", kind=r.choice(["spline", "realnvp", "fm"]), d=r.choice([1, 2, 3]), layers=r.choice([1, 2, 3]),
                    n=r.choice([2, 9]), epochs=r.choice([1, 3]), batch=r.choice([2, 4, 50]))
    if k < 0.5:
        what = r.choice(["serial", "serial", "pt", "pt", "group", "adam"])
        return dict(type="shared", what=what, kernel=gen_kernel(r), d=r.choice([1, 2, 3]), T=r.choice([2, 3, 4]),
                    n=r.choice([1, 1, 3]) if what != "group" else r.choice([1, 3, 7]), nf_batch=r.choice([1, 2, 3, 100]),
                    batch=r.choice([0, 2, 5, 7]), rng=r.choice(["sim", "threefry"]), calls=r.choice([1, 2]))
    steps = []
    kernel = gen_kernel(r)
    for _ in range(r.choice([1, 2, 2, 3])):
        kind = r.choice(["serial", "serial", "group", "group", "pt", "pt", "train", "adam"])
        s = dict(kind=kind, n=r.choice([1, 2, 5]))
        if kind == "group":
            s.update(flow=r.choice(["tiny", "tiny", "spline", "realnvp"]), nf_batch=r.choice([1, 2, 3, 100]))
            if d == 1 and s["flow"] == "realnvp":
                s["flow"] = "tiny"
        if kind == "pt":
            s.update(T=r.choice([2, 3, 4]), train=r.random() < 0.5)
        if kind == "train":
            s.update(flow=r.choice(["tiny", "tiny", "spline"]), batch=r.choice([2, 3, 100]), n_max=r.choice([6, 11]))
        steps.append(s)
    return dict(type="plain", C=C, d=d, kernel=kernel, steps=steps, batch=r.choice([0, 2, 3]),
                ops=[r.randrange(len(steps)) for _ in range(r.randint(2, 4))])


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    if scn["type"] == "plain":
        yield from shrink_list(scn, "ops", 1)
        for k in sorted(set(scn["ops"])):
            yield from shrink_int(scn, ["steps", k, "n"], 1)
        yield from shrink_int(scn, ["C"], 1)
    if scn["type"] == "bundle":
        for f, lo in (("prod", 0), ("train", 0), ("n_local", 1), ("n_global", 1), ("n_chains", 1)):
            yield from shrink_int(scn, [f], lo)
    if scn["type"] == "shared":
        for f in ("calls", "n"):
            yield from shrink_int(scn, [f], 1)
        if scn["batch"]:
            yield set_path(scn, ["batch"], 0)
    if scn["type"] == "model":
        for f in ("layers", "epochs"):
            yield from shrink_int(scn, [f], 1)


class Watch:
    """Ledger checks around strategy calls."""

    def __init__(self, ctx, twice_ok):
        self.ctx, self.ok, self.n = ctx, twice_ok, 0

    def after(self, name, args, out):
        from sim import ledger as L, world as W
        es = L.entries()
        new = es[self.n:]
        self.n = len(es)
        bad = L.reused(es, self.ok)
        if bad:
            k, c = bad[0]
            here = [x[1:] for x in new if x[0] == k]
            raise Violation("key-reused", f"{name}: key {k:016x} was consumed {sum(c.values())} times: "
                            f"{ {f'{op}{list(w)}': n for (op, w), n in c.items()} }, {len(here)} of them in this call")
        if out is not None:
            rk = W.raw_key_int(out[0])
            if any(e[0] == rk for e in es):
                raise Violation("consumed-key-returned", f"{name} returned key {rk:016x}, which has been consumed "
                                f"({[e[1:] for e in es if e[0] == rk]})")
        self.ctx.steps += len(new)
        self.ctx.log(name, len(new))


def run(scn, ctx):
    if scn["type"] == "shared":
        return run_shared(scn, ctx)
    from sim import ledger as L
    with L.recording():
        {"bundle": run_bundle, "model": run_model, "plain": run_plain}[scn["type"]](scn, ctx)


def run_plain(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import ledger as L, world as W
    from sim.props.c01 import make_kernel
    from flowMC.Sampler import Sampler
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.optimization import AdamOptimization
    from flowMC.strategy.train_model import TrainModel
    from flowMC.strategy.lambda_function import Lambda
    C, d = scn["C"], scn["d"]
    f = lambda x, data: -0.5 * jnp.sum(x**2)
    total = 1 + sum(scn["steps"][k]["n"] for k in scn["ops"] if scn["steps"][k]["kind"] in ("serial", "group"))
    res = dict(logpdf=W.LogPDF(f, n_dims=d), kernel=make_kernel(scn["kernel"], d, 1.0), P=W.Buffer("P", (C, total, d), 1),
               Lp=W.Buffer("Lp", (C, total), 1), A=W.Buffer("A", (C, total), 1), T=W.Buffer("T", (C, 12, d), 1),
               state=W.State({"P": "P", "L": "Lp", "A": "A", "training": True}, name="state"))
    g = np.random.default_rng(scn["seed"])
    res["T"].data = jnp.asarray(g.normal(size=(C, 12, d)), jnp.float32)
    twice = {(32, d)} if scn["kernel"]["kind"] == "mala" else set()
    strategies, cur = {}, [0]
    for k, s in enumerate(scn["steps"]):
        if s["kind"] == "serial":
            o = TakeSerialSteps("logpdf", "kernel", "state", ["P", "L", "A"], s["n"], chain_batch_size=scn["batch"])
        elif s["kind"] == "group":
            with sut("flow construction"):
                res[f"flow{k}"] = NFProposal(flow(s["flow"], d, L.key(1000 + k)), n_NFproposal_batch_size=s["nf_batch"])
            o = TakeGroupSteps("logpdf", f"flow{k}", "state", ["P", "L", "A"], s["n"], chain_batch_size=scn["batch"])
        elif s["kind"] == "pt":
            res[f"hot{k}"] = W.Buffer("hot", (C, s["T"] - 1, d), 2)
            res[f"hot{k}"].data = jnp.asarray(g.normal(size=(C, s["T"] - 1, d)), jnp.float32)
            res[f"tmp{k}"] = W.Buffer("tmp", (s["T"],), 0)
            res[f"tmp{k}"].data = jnp.linspace(1.0, 4.0, s["T"])
            res[f"pst{k}"] = W.State({"training": s["train"]})
            res[f"pdf{k}"] = W.TemperedPDF(f, lambda x, data: 0.0, n_dims=d)
            o = ParallelTempering(s["n"], f"pdf{k}", "kernel", [f"hot{k}", f"tmp{k}"], f"pst{k}")
        elif s["kind"] == "adam":
            o = AdamOptimization(f, s["n"], 0.1, 1.0, jnp.array([[-50.0, 50.0]]))
        else:
            with sut("flow construction"):
                res[f"model{k}"] = flow(s["flow"], d, L.key(1000 + k))
            res[f"opt{k}"] = Optimizer(res[f"model{k}"], learning_rate=1e-2)
            o = TrainModel(f"model{k}", "T", f"opt{k}", n_epochs=s["n"], batch_size=s["batch"], n_max_examples=s["n_max"])
        strategies[f"s{k}"] = o
    order = []
    for j, k in enumerate(scn["ops"]):
        o, kind = strategies[f"s{k}"], scn["steps"][k]["kind"]
        name = f"op{j}:{kind}"
        if kind in ("serial", "group"):
            pos = cur[0]
            strategies[f"set{j}"] = Lambda(lambda a, b, c, e, o=o, pos=pos: o.set_current_position(pos))
            order.append(f"set{j}")
            cur[0] += scn["steps"][k]["n"]
        strategies[name] = o
        order.append(name)
    smp = Sampler(d, C, L.key(scn["seed"]), resources=res, strategies=strategies, strategy_order=order)
    w = Watch(ctx, twice)
    W.spy_all(smp, after=w.after)
    with sut("Sampler.sample"):
        smp.sample(jnp.asarray(g.normal(size=(C, d)), jnp.float32), {})
    kinds = [scn["steps"][k]["kind"] for k in scn["ops"]]
    ctx.state(sorted(kinds), scn["batch"], scn["kernel"]["kind"])
    for k in kinds:
        ctx.probes["ledger: " + k] += 1


def flow(kind, d, key):
    from sim import world as W
    if kind == "tiny":
        return W.TinyFlow(d)
    if kind == "spline":
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        return MaskedCouplingRQSpline(d, 2, [4], 3, key)
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    return RealNVP(d, 2, 4, key)


def run_bundle(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import ledger as L, world as W
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    C, d = scn["n_chains"], scn["n_dims"]
    with sut("bundle construction"):
        b = make_bundle(scn, lambda x, data: -0.5 * jnp.sum(x**2), key=L.key(scn["seed"] ^ 0x55))
    w = Watch(ctx, {(32, d)})
    w.after("bundle construction", None, None)
    smp = Sampler(d, C, L.key(scn["seed"]), resource_strategy_bundles=b)
    W.spy_all(smp, after=w.after)
    g = np.random.default_rng(scn["seed"])
    with sut("Sampler.sample with a bundle"):
        smp.sample(jnp.asarray(g.normal(size=(C, d)), jnp.float32), {})
    ctx.probes["ledger: bundle"] += 1
    ctx.state("bundle", scn["pt"], scn["batch"])


def run_model(scn, ctx):
    """Construction, training and sampling of one model."""
    import numpy as np
    import jax.numpy as jnp
    import equinox as eqx
    import jax
    from sim import ledger as L
    from flowMC.resource.optimizer import Optimizer
    d = scn["d"]
    g = np.random.default_rng(scn["seed"])
    data = jnp.asarray(g.normal(size=(12, d)), jnp.float32)
    w = Watch(ctx, set())
    with sut("model construction"):
        if scn["kind"] == "spline":
            from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
            m = MaskedCouplingRQSpline(d, scn["layers"], [4, 3], 3, L.key(scn["seed"]))
        elif scn["kind"] == "realnvp":
            from flowMC.resource.model.nf_model.realNVP import RealNVP
            m = RealNVP(d, scn["layers"], 4, L.key(scn["seed"]))
        else:
            from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
            from flowMC.resource.model.common import MLP
            m = FlowMatchingModel(Solver(MLP([d + 1] + [4] * scn["layers"] + [d], L.key(scn["seed"]), activation=jax.nn.tanh)),
                                  Path(CondOTScheduler()))
            data = (data, jnp.asarray(g.normal(size=(12, d)), jnp.float32), jnp.asarray(g.random((12, 1)), jnp.float32))
    w.after("construction", None, None)
    if scn["kind"] != "fm":
        arrs = [np.asarray(v) for v in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_inexact_array))]
        for a in arrs:      # layers are stacked along the first axis: no two may start equal
            if a.ndim >= 3 and a.shape[0] == scn["layers"] and scn["layers"] > 1:
                if any(np.array_equal(a[p], a[q]) and np.abs(a[p]).max() > 0 for p in range(len(a)) for q in range(p)):
                    raise Violation("layers-share-randomness", f"{scn['kind']}: two layers were initialised with equal weights {a.shape}")
    opt = Optimizer(m, learning_rate=1e-3)
    with sut("train"):
        k, m, _, _ = m.train(L.key(scn["seed"] + 1), data, opt.optim, opt.optim_state, scn["epochs"], scn["batch"], verbose=False)
    w.after("train", None, (k,))
    with sut("sample"):
        x = np.asarray(m.sample(k, scn["n"]))
    w.after("sample", None, None)
    rows = {r.tobytes() for r in x}
    if len(rows) < scn["n"] - (d == 1):
        raise Violation("samples-repeat", f"{scn['kind']}: {scn['n']} samples, {len(rows)} distinct")
    ctx.probes["ledger: model " + scn["kind"]] += 1
    ctx.state("model", scn["kind"], scn["batch"], scn["layers"])


def run_shared(scn, ctx):
    """Many chains at one point where every move is a fair coin flip: proposals and flips must all be independent."""
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import core, world as W
    from sim.props.c01 import make_kernel
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.optimization import AdamOptimization
    d, C = scn["d"], 48
    flip = lambda x, data: jnp.where(jnp.all(x == 0.0), 0.0, -0.6931)
    key = core.make_key(scn["seed"], scn["rng"])
    x0 = jnp.zeros((C, d))
    seen = {}

    hits = [0]

    def fresh(what, rows):
        for q, row in rows:
            t = row.tobytes()
            hits[0] += t in seen
            if hits[0] > (2 if d == 1 else 0):      # single floats do coincide now and then
                raise Violation("same-proposal", f"{what}: {q} and {seen[t]} moved to the same point {row.tolist()}")
            seen[t] = q

    def coins(what, moved):
        moved = np.asarray(moved)
        if moved.all() or not moved.any():
            raise Violation("same-decision", f"{what}: {int(moved.sum())} of {len(moved)} fair coin flips came up heads")

    if scn["what"] == "adam":
        st = AdamOptimization(lambda x, data: -jnp.sum((x - 3.0) ** 2), 6, 0.1, 3.0, jnp.array([[-50.0, 50.0]]))
        for j in range(scn["calls"]):
            with sut("AdamOptimization"):
                key, _, x = st(key, {}, x0, {})
            fresh("optimiser", [(f"chain {c} of call {j}", np.asarray(x)[c]) for c in range(C)])
    elif scn["what"] == "pt":
        T = scn["T"]
        res = dict(k=make_kernel(scn["kernel"], d, 1.0), hot=W.Buffer("hot", (C, T - 1, d), 2), tmp=W.Buffer("tmp", (T,), 0),
                   st=W.State({"training": False}),
                   pdf=W.TemperedPDF(lambda x, data: 0.0 * jnp.sum(x), flip, n_dims=d))
        st = ParallelTempering(1, "pdf", "k", ["hot", "tmp"], "st")
        for j in range(scn["calls"]):
            res["hot"].data = jnp.zeros((C, T - 1, d))
            res["tmp"].data = jnp.linspace(1.0, 3.0, T)
            with sut("ParallelTempering"):
                key, res, cold = st(key, res, x0, {})
            x = np.concatenate([np.asarray(cold)[:, None], np.asarray(res["hot"].data)], axis=1)
            moved = (x != 0).any(-1)
            for t in range(T):
                coins(f"tempering, call {j}, slot {t}, over chains", moved[:, t])
            if all(m.all() or not m.any() for m in moved):
                raise Violation("same-decision", f"tempering, call {j}: in every chain all temperatures decided alike")
            fresh("tempering", [(f"chain {c} slot {t} of call {j}", x[c, t]) for c in range(C) for t in range(T) if moved[c, t]])
        # exchanges are coin flips too
        st0 = ParallelTempering(1, "pdf0", "id", ["hot", "tmp"], "st")

        class Stay(W._Unsaved, W.ProposalBase):
            def __init__(self):
                pass

            def kernel(self, rng_key, position, log_prob, logpdf, data):
                return position, log_prob, jnp.asarray(False)
        res["id"] = Stay()
        res["pdf0"] = W.TemperedPDF(lambda x, data: -x[0], lambda x, data: 0.0, n_dims=d)
        beta = np.exp(-np.arange(T) * 0.5)
        res["tmp"].data = jnp.asarray(1 / beta, jnp.float32)
        lv = np.concatenate([[0.0], np.cumsum(0.6931 / -np.diff(beta))])
        res["hot"].data = jnp.asarray(np.tile(lv[1:, None], (C, 1, d)), jnp.float32)
        with sut("ParallelTempering"):
            key, res, cold = st0(key, res, jnp.zeros((C, d)), {})
        top = np.asarray(res["hot"].data)[:, -1, 0]
        coins("exchanges with the top temperature over chains", np.abs(top - lv[-1]) > 1e-3)
        if T > 2:
            x = np.concatenate([np.asarray(cold)[:, None], np.asarray(res["hot"].data)], axis=1)[:, :, 0]
            pats = {tuple(np.round(v, 2)) for v in x}
            if len(pats) < 3:
                raise Violation("same-decision", f"all exchanges of a chain decide alike: {len(pats)} outcomes in {C} chains")
    else:
        n = scn["n"]
        res = dict(logpdf=W.LogPDF(flip, n_dims=d), state=W.State({"P": "P", "L": "Lp", "A": "A"}))
        if scn["what"] == "serial":
            res["k"] = make_kernel(scn["kernel"], d, 1.0)
            st = TakeSerialSteps("logpdf", "k", "state", ["P", "L", "A"], n, chain_batch_size=scn["batch"])
        else:
            class Flat(W.TinyFlow):
                def log_prob(self, x):
                    return jnp.asarray(0.0) + 0.0 * jnp.sum(self.mu)

                def sample(self, rng_key, n_samples):
                    return 0.1 * jax.random.normal(rng_key, (n_samples, d)) + 1.0
            res["k"] = NFProposal(Flat(d), n_NFproposal_batch_size=scn["nf_batch"])
            st = TakeGroupSteps("logpdf", "k", "state", ["P", "L", "A"], n, chain_batch_size=scn["batch"])
        for j in range(scn["calls"]):
            res["P"], res["Lp"], res["A"] = W.Buffer("P", (C, n, d), 1), W.Buffer("Lp", (C, n), 1), W.Buffer("A", (C, n), 1)
            st.set_current_position(0)
            with sut(scn["what"]):
                key, res, _ = st(key, res, x0, {})
            P, A = np.asarray(res["P"].data), np.asarray(res["A"].data)
            coins(f"{scn['what']}, call {j}, first step over chains", A[:, 0] > 0)
            fresh(scn["what"], [(f"chain {c} step {q} of call {j}", P[c, q]) for c in range(C) for q in range(n) if A[c, q] > 0])
    ctx.steps += C
    ctx.probes["coin flips: " + scn["what"]] += 1
    ctx.state("shared", scn["what"], scn["kernel"]["kind"], scn["batch"], scn["nf_batch"])
    ctx.log(scn["what"], len(seen))
