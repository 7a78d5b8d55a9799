"""C20: a bundle run does what its configuration says."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 90, "thorough": 3000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "strategy calls of the bundles"
RULE = ("A run draws the configuration of one of the two bundles and executes the whole schedule. Counting runs use kernels that "
        "advance by one per step, a flow that counts its updates and a clock of the loops, and compare the steps of every "
        "phase, the updates and examples of every training, the ladder and the flow's shape with the configuration. Paired runs "
        "execute the same seed under two configurations: twice the step size must double the moves on a flat target, twice the "
        "learning rate the first update, and reporting must change nothing at all. Non-trivial: both phases ran. Distinct: "
        "different event logs.")
STATE_MEASURE = "(bundle, aspect, loops, steps, epochs, examples, batch size, temperatures) configurations executed"
REAL = ["Sampler", "RQSpline_MALA_Bundle", "RQSpline_MALA_PT_Bundle", "TakeSerialSteps", "TakeGroupSteps", "TrainModel", "NFModel training",
        "ParallelTempering", "Optimizer", "MALA, NFProposal and MaskedCouplingRQSpline in the paired runs"]
STUB = ["in the counting runs: local and flow kernel that count their steps, flow whose only parameter counts its updates"]
ASSUMPTIONS = ["the examples of a training are seen through the mean they leave in the flow's whitening"]


def gen(r, i, tier):
    pt = r.random() < 0.55
    aspect = (["count"] * 2 + ["step"] + ["count"] * 2 + ["rate"] + ["count"] * 2 + ["verbose"] + ["count"] * 2 + ["shape"] + ["step", "rate"])[i % 14]
    n_local, thin_l = r.choice([(1, 1), (2, 1), (3, 1), (4, 2), (5, 1), (5, 5), (5, 2), (3, 2)])
    n_global, thin_g = r.choice([(1, 1), (2, 1), (3, 1), (4, 2), (4, 1), (6, 3), (3, 2)])
    n_max = r.choice([3, 8, 20, 33])
    if aspect != "count":
        n_local, n_global, thin_l, thin_g = min(n_local, 3), min(n_global, 3), 1, 1
    return dict(aspect=aspect, pt=pt, n_chains=r.choice([1, 2, 3, 5]), n_dims=r.choice([1, 2, 3]), n_local=n_local, thin_l=thin_l,
                n_global=n_global, thin_g=thin_g, train=r.choice([1, 2, 3]) if aspect == "count" else r.choice([1, 2]),
                prod=r.choice([1, 2, 4]) if aspect == "count" else 1,
                epochs=1 if aspect == "rate" else r.choice([2, 12, 23]) if aspect == "verbose" else r.choice([1, 2, 3, 5]), n_temps=r.choice([2, 3, 4, 5]), n_tempered=r.choice([-1, 0, 1, 2, 4]),
                batch=r.choice([0, 2]), n_max=n_max, train_batch=r.choice([1, 2, 5, n_max, 64]), lr=r.choice([0.001, 0.02, 0.1]),
                window=r.choice([1, 2, 5, 100]), max_temp=r.choice([2.0, 5.0, 20.0, 300.0]), nf_batch=r.choice([1, 3, 100]),
                step=r.choice([0.01, 0.1, 0.7]), hidden=r.choice([[3], [4, 2], [5, 5]]), bins=r.choice([2, 3, 5]), layers=r.choice([1, 2, 3]),
                rng=r.choice(["sim", "sim", "threefry"]))


def shrinks(scn):
    from sim.world import shrink_int
    for f, lo in (("train", 1), ("prod", 1), ("n_chains", 1), ("n_dims", 1), ("epochs", 1), ("n_temps", 2), ("n_max", 3)):
        yield from shrink_int(scn, [f], lo)


def bundle(scn, like, **kw):
    from sim.bundle import make_bundle
    with sut("bundle construction"):
        return make_bundle(scn, like, **kw)


def sampler(scn, b):
    from flowMC.Sampler import Sampler
    return Sampler(scn["n_dims"], scn["n_chains"], core.make_key(scn["seed"], scn["rng"]), resource_strategy_bundles=b)


def run(scn, ctx):
    {"count": run_count, "step": run_step, "rate": run_rate, "verbose": run_verbose, "shape": run_shape}[scn["aspect"]](scn, ctx)
    ctx.probes["aspect: " + scn["aspect"]] += 1
    ctx.state(scn["pt"], scn["aspect"], scn["train"], scn["prod"], scn["n_local"], scn["n_global"], scn["epochs"], scn["n_max"],
              scn["train_batch"], scn["n_temps"])


def check_ladder(scn, temps, what):
    import numpy as np
    t = np.asarray(temps)
    m = scn["max_temp"]
    if t.shape != (scn["n_temps"],) or abs(t[0] - 1) > 1e-6 or abs(t[-1] - m) > 1e-5 * m or (np.diff(t) <= 0).any():
        raise Violation("wrong-ladder", f"{what}: {scn['n_temps']} temperatures up to {m} configured, the ladder is {t.tolist()}")


# ------------------------------------------------------------------ counting
def run_count(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import optax
    from sim import world as W
    from flowMC.resource.optimizer import Optimizer
    C, d = scn["n_chains"], scn["n_dims"]

    class Count(W.TinyFlow):
        """Every update moves the parameter by one; every epoch is better than the one before."""

        def log_prob(self, x):
            return self.mu[0] + 0.0 * jnp.sum(x)

    b = bundle(scn, lambda x, data: 0.0 * jnp.sum(x))
    res = b.resources
    flow = Count(d)
    res["local_sampler"] = W.CounterKernel()
    res["global_sampler"] = W.CounterGroupKernel(flow)
    res["model"] = flow
    opt = Optimizer(flow)
    opt.optim = optax.sgd(1.0)
    opt.optim_state = opt.optim.init(flow.mu)
    res["optimizer"] = opt
    smp = sampler(scn, b)
    seen = dict(local=0, flow=0, train=0, pt=0, mu=0.0, phase="training")
    hot = {}
    per_epoch = max(1, scn["n_max"] // scn["train_batch"])
    n_temp_steps = scn["n_tempered"] if scn["n_tempered"] > 0 else scn["n_local"]

    def before(name, key, resources, pos, data):
        if name == "parallel_tempering":
            hot["x"] = np.array(resources["tempered_positions"].data)
            if seen["pt"] == 0:
                check_ladder(scn, resources["temperatures"].data, "first tempering")
                if hot["x"].shape != (C, scn["n_temps"] - 1, d):
                    raise Violation("wrong-ladder", f"the tempered walkers have shape {hot['x'].shape}")

    def after(name, args, out):
        ctx.steps += 1
        resources, start, end = out[1], np.array(args[2]), np.array(out[2])
        moved = end[:, 0] - start[:, 0]
        what = f"{seen['phase']}, {name}"
        if name in ("local_stepper", "global_stepper"):
            n = scn["n_local"] if name == "local_stepper" else scn["n_global"]
            seen["local" if name == "local_stepper" else "flow"] += 1
            if not (moved == n).all():
                raise Violation("wrong-step-count", f"{what}: chains took {moved.tolist()} steps, {n} are configured")
        elif name == "parallel_tempering":
            seen["pt"] += 1
            a = np.sort(np.concatenate([start[:, None], hot["x"]], 1)[:, :, 0], 1) + n_temp_steps
            z = np.sort(np.concatenate([end[:, None], np.array(resources["tempered_positions"].data)], 1)[:, :, 0], 1)
            if not np.array_equal(a, z):
                raise Violation("wrong-step-count", f"{what}: walkers went to {z.tolist()}, after {n_temp_steps} configured tempered steps "
                                f"they should be at {a.tolist()}")
        elif name == "model_trainer":
            seen["train"] += 1
            mu = float(resources["model"].mu[0])
            n = mu - seen["mu"]
            if n != scn["epochs"] * per_epoch:
                raise Violation("wrong-training", f"{what} {seen['train']}: {n} updates, {scn['epochs']} epochs over {scn['n_max']} examples in "
                                f"batches of {scn['train_batch']} make {scn['epochs'] * per_epoch}")
            seen["mu"] = mu
            lb = np.array(resources["loss_buffer"].data)
            want = -(np.arange(len(lb)) * per_epoch + per_epoch - 1.0)
            k = seen["train"] * scn["epochs"]
            if len(lb) != scn["train"] * scn["epochs"] or not np.array_equal(lb[:k], want[:k]):
                raise Violation("wrong-training", f"{what} {seen['train']}: losses {lb.tolist()}, should be {want[:k].tolist()} so far")
            P = np.array(resources["positions_training"].data)
            done = np.isfinite(P).all(-1)
            if scn["pt"]:      # the window of the other bundle is not configurable
                pool = np.concatenate([p[f][-scn["window"]:] for p, f in zip(P, done)])
            else:
                pool = P[done]
            m = np.array(resources["model"]._data_mean)
            lo, hi = pool.min(0), pool.max(0)
            if (m < lo - 1e-3).any() or (m > hi + 1e-3).any():
                raise Violation("wrong-examples", f"{what} {seen['train']}: the examples have mean {m.tolist()}, the last {scn['window']} "
                                f"recorded samples of the chains lie between {lo.tolist()} and {hi.tolist()}")
        elif name != "update_state" and not np.array_equal(start, end):
            raise Violation("chain-moved", f"{what}: the chains moved from {start.tolist()} to {end.tolist()}")
        if seen["phase"] == "training" and resources["sampler_state"].data["training"] is False:
            if (seen["local"], seen["flow"], seen["train"]) != (scn["train"],) * 3 or (scn["pt"] and seen["pt"] != scn["train"]):
                raise Violation("wrong-loops", f"production started after {seen}, {scn['train']} training loops are configured")
            seen["phase"] = "production"
        ctx.log(name, end)

    W.spy_all(smp, before=before, after=after)
    g = np.random.default_rng(scn["seed"])
    x0 = jnp.asarray(np.round(g.normal(size=(C, d)) * 3), core.flt())
    with sut("Sampler.sample with a bundle"):
        smp.sample(x0, {})
    n = scn["train"] + scn["prod"]
    if (seen["local"], seen["flow"], seen["train"]) != (n, n, scn["train"]) or (scn["pt"] and seen["pt"] != n) or seen["phase"] == "training":
        raise Violation("wrong-loops", f"the run had {seen}, configured were {scn['train']} training and {scn['prod']} production loops")
    for ph, loops in (("training", scn["train"]), ("production", scn["prod"])):
        k = loops * (scn["n_local"] // scn["thin_l"] + scn["n_global"] // scn["thin_g"])
        for nm, sh in (("positions", (C, k, d)), ("log_prob", (C, k)), ("local_accs", (C, k)), ("global_accs", (C, k))):
            if smp.resources[f"{nm}_{ph}"].data.shape != sh:
                raise Violation("wrong-loops", f"{nm}_{ph} has shape {smp.resources[f'{nm}_{ph}'].data.shape}, the configured schedule "
                                f"records {sh}")
    ctx.probes["whole schedules counted"] += 1


# ------------------------------------------------------------------ pairs
def records(scn, like, upto, x0, **kw):
    """Run a bundle up to and including the first call of a strategy; the resources and positions then."""
    import numpy as np
    b = bundle(scn, like, **kw)
    smp = sampler(scn, b)
    if upto:
        k = smp.strategy_order.index(upto) + 1
        smp.strategy_order = smp.strategy_order[:k]
    from sim import world as W
    ends = []
    W.spy_all(smp, after=lambda name, args, out: ends.append(np.array(out[2])))
    with sut("Sampler.sample with a bundle"):
        smp.sample(x0, {"c": 0.5})
    return smp, ends


def run_step(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    flat = lambda x, data: 0.0 * jnp.sum(x)
    x0 = jnp.zeros((scn["n_chains"], scn["n_dims"]), core.flt())
    got = []
    for f in (1.0, 2.0):
        smp, ends = records({**scn, "step": scn["step"] * f}, flat, "local_stepper", x0)
        n = scn["n_local"]
        got.append(np.array(smp.resources["positions_training"].data)[:, :n])
        ctx.steps += len(ends)
    a, z = got
    if not np.isfinite(a).all() or not np.abs(a).max() > 1e-3 * scn["step"]:
        raise Violation("step-size-ignored", f"with step size {scn['step']} the chains went to {a.tolist()} on a flat target")
    if not np.allclose(2 * a, z, rtol=1e-3, atol=1e-5 * scn["step"]):
        raise Violation("step-size-ignored", f"on a flat target twice the step size must double every move: {a[0].tolist()} with step "
                        f"{scn['step']}, {z[0].tolist()} with twice that")
    # the size itself: a move has variance step**2 per coordinate
    m = np.diff(np.concatenate([0 * a[:, :1], a], 1), axis=1) / scn["step"]
    if not scn["pt"] and m.size >= 9 and not 0.2 < np.sqrt((m**2).mean()) < 2.5:
        raise Violation("step-size-ignored", f"moves on a flat target have size {np.sqrt((m**2).mean())} steps")
    ctx.log(got)


def run_rate(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    like = lambda x, data: -0.5 * jnp.sum((x - data["c"]) ** 2)
    scn = {**scn, "train_batch": 64, "n_chains": max(3, scn["n_chains"])}
    g = np.random.default_rng(scn["seed"])
    x0 = jnp.asarray(g.normal(size=(scn["n_chains"], scn["n_dims"])), core.flt())
    moves = []
    for f in (1.0, 2.0):
        s = {**scn, "lr": scn["lr"] * f}
        b = bundle(s, like)
        start = [np.array(v) for v in jax.tree_util.tree_leaves(eqx.filter(b.resources["model"], eqx.is_inexact_array))]
        smp, ends = records(s, like, "model_trainer", x0)
        end = [np.array(v) for v in jax.tree_util.tree_leaves(eqx.filter(smp.resources["model"], eqx.is_inexact_array))]
        if [v.shape for v in start] != [v.shape for v in end]:
            raise Violation("rate-ignored", "training changed the shape of the flow")
        if not np.isfinite(np.array(smp.resources["loss_buffer"].data)[0]):
            ctx.probes["loss not finite"] += 1
            ctx.log("loss not finite")
            return
        moves.append((start, end))
        ctx.steps += len(ends)
    o = bundle({**scn, "lr": scn["lr"]}, like).resources["optimizer"]
    p = q = jax.tree.map(jnp.zeros_like, eqx.filter(b.resources["model"], eqx.is_inexact_array))
    grad = jax.tree.map(lambda v: jnp.full_like(v, 1e-3), p)
    state = o.optim_state
    for k in range(12):      # a constant gradient makes every update as large as the rate
        with sut("updating with the bundle's optimizer"):
            u, state = o.optim.update(grad, state, q)
        q = eqx.apply_updates(q, u)
        big = max(float(jnp.abs(v).max()) for v in jax.tree_util.tree_leaves(u) if v.size)
        if not 0.95 * scn["lr"] < big < 1.05 * scn["lr"]:
            raise Violation("rate-ignored", f"update {k} under a constant gradient is {big}, the configured learning rate is {scn['lr']}")
    ctx.probes["updates measured against the rate"] += 12
    mean_cov = {(scn["n_dims"],), (scn["n_dims"], scn["n_dims"])}
    top = 0.0
    for s1, e1, s2, e2 in zip(*moves[0], *moves[1]):
        if s1.shape in mean_cov or not np.array_equal(s1, s2):
            continue      # whitening
        a, z = (e1 - s1).astype(np.float64), (e2 - s2).astype(np.float64)
        top = max(top, np.abs(a).max())
        if not np.allclose(2 * a, z, rtol=2e-3, atol=1e-3 * scn["lr"] + 1e-6 * np.abs(s1).max()):
            raise Violation("rate-ignored", f"twice the learning rate must double the first update: parameters of shape {s1.shape} moved by up to "
                            f"{np.abs(a).max()} at rate {scn['lr']} and {np.abs(z).max()} at twice that")
    if not 0.3 * scn["lr"] < top < 1.5 * scn["lr"]:
        raise Violation("rate-ignored", f"the first update at learning rate {scn['lr']} moved the parameters by up to {top}")
    ctx.probes["first updates compared"] += 1
    ctx.log(top)


def run_verbose(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import world as W
    like = lambda x, data: -0.5 * jnp.sum((x - data["c"]) ** 2)
    g = np.random.default_rng(scn["seed"])
    x0 = jnp.asarray(g.normal(size=(scn["n_chains"], scn["n_dims"])), core.flt())
    out = []
    for v in (False, True):
        smp, ends = records(scn, like, None, x0, verbose=v)
        out.append((W.snap_resources(smp.resources), ends))
        ctx.steps += len(ends)
    diff = W.diff_resources(out[0][0], out[1][0])
    if diff or not W.same(out[0][1], out[1][1]):
        raise Violation("reporting-changes-result", f"the run reports its progress and {', '.join(diff) or 'the positions between strategies'} "
                        "come out different")
    ctx.log(out[0][1][-1])


def run_shape(scn, ctx):
    """The flow has the configured layers, bins and units, and the data the configured size."""
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    args = dict(rq_spline_hidden_units=scn["hidden"], rq_spline_n_bins=scn["bins"], rq_spline_n_layers=scn["layers"])
    b = bundle(scn, lambda x, data: -0.5 * jnp.sum(x**2), **args)
    want = MaskedCouplingRQSpline(scn["n_dims"], scn["layers"], scn["hidden"], scn["bins"], jax.random.PRNGKey(0))

    def form(m):
        return sorted(str(v.shape) for v in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_array)))
    for what, m in (("model", b.resources["model"]), ("flow of the proposals", b.resources["global_sampler"].model)):
        if form(m) != form(want):
            raise Violation("wrong-flow", f"the {what} has parameters {form(m)}, a flow of {scn['layers']} layers, {scn['bins']} bins and "
                            f"{scn['hidden']} units has {form(want)}")
    if scn["pt"]:
        check_ladder(scn, b.resources["temperatures"].data, "new bundle")
    # the whole schedule runs with it
    smp = sampler(scn, b)
    g = __import__("numpy").random.default_rng(scn["seed"])
    with sut("Sampler.sample with a bundle"):
        smp.sample(jnp.asarray(g.normal(size=(scn["n_chains"], scn["n_dims"])), core.flt()), {})
    if form(smp.resources["model"]) != form(want):
        raise Violation("wrong-flow", "training changed the flow's shape")
    ctx.steps += len(smp.strategy_order)
    ctx.log(form(want))
