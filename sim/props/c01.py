"""C01: sampling leaves the target distribution invariant (large simulated ensembles)."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 130, "thorough": 5000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "chain transitions"
Z = 7.0
RULE = ("A run draws a target with an exact sampler, a set of kernels (random walk, MALA, HMC with scalar/diagonal/dense "
        "metric, flow proposals from a stub, spline or RealNVP flow) or a tempered target with a ladder or a whole bundle in "
        "production, starts tens of thousands of chains exactly at the target(s), executes a random schedule of "
        "strategies and compares bounded test functions of the ensemble with its own start after every strategy "
        "(paired z-test, |z| < 7). Non-trivial: more than 2% of the chains moved.")
STATE_MEASURE = "(strategy, kernel, metric kind, target kind, acceptance decile) combinations reached"
REAL = ["TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "MALA", "HMC", "GaussianRandomWalk", "NFProposal",
        "MaskedCouplingRQSpline", "RealNVP", "LogPDF", "TemperedPDF", "both bundles in production", "Sampler"]
STUB = ["in part of the runs: the PRNG (registered with JAX) and the flow (diagonal Gaussian)"]
ASSUMPTIONS = ["float32 rounding is below the resolution of the test (about 2% of a standard deviation)"]


def gen_kernel(r, hard):
    k = r.choice(["grw", "mala", "mala", "hmc", "hmc", "hmc"])
    s = dict(kind=k, step=r.choice([0.3, 0.6, 1.0, 1.5]))
    if k == "hmc":
        s.update(metric=r.choice(["one", "scalar", "diag", "dense", "dense"]), leap=r.choice([1, 2, 3, 5]),
                 mseed=r.randint(0, 999), step=r.choice([0.15, 0.3, 0.5]))
    return s


def gen(r, i, tier):
    c = r.random()
    rng = r.choice(["sim", "sim", "threefry"])
    if c < 0.30:
        d = r.choice([1, 1, 2, 3])
        nt = r.choice([2, 3, 3, 4])
        temps = [1.0]
        for _ in range(nt - 1):
            temps.append(round(temps[-1] * r.choice([1.3, 1.8, 2.5, 4.0]), 3))
        return dict(type="pt", d=d, tseed=r.randint(0, 10**6), bimodal=r.random() < 0.6, flat_prior=r.random() < 0.35,
                    temps=temps, kernel=gen_kernel(r, False), n_steps=r.choice([1, 2, 4]), n=24000, rng=rng,
                    ops=[r.choice(["pt", "pt", "pt", "local"]) for _ in range(r.choice([2, 4, 6, 8]))])
    if c < 0.36:
        return dict(type="bundle", pt=r.random() < 0.75, d=r.choice([1, 2]), tseed=r.randint(0, 10**6),
                    bimodal=r.random() < 0.5, flat_prior=r.random() < 0.25, n=16000, rng="threefry",
                    n_local=r.choice([1, 3]), n_global=r.choice([1, 4]), prod=r.choice([1, 2, 4]),
                    n_temps=r.choice([2, 3]), max_temp=r.choice([3.0, 6.0]), step=r.choice([0.4, 0.8]),
                    flow=gen_flow(r, True), nf_batch=r.choice([2, 3, 10000]))
    d = r.choice([1, 2, 2, 3])
    from sim.targets import gen_target
    t = gen_target(r, d)
    kernels = [gen_kernel(r, None) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    flow = None
    if r.random() < 0.5:
        flow = gen_flow(r, d > 1)
    for _ in range(r.choice([1, 2, 3])):
        if flow and r.random() < 0.55:
            ops.append(["group", r.choice([1, 3, 5]), r.choice([1, 1, 2])])
        else:
            ops.append(["serial", r.randrange(len(kernels)), r.choice([1, 2, 4, 8]), r.choice([1, 1, 2])])
    n = 100000
    if flow and flow["kind"] != "tiny":
        n = 30000
    return dict(type="plain", target=t, kernels=kernels, flow=flow, ops=ops, n=n, rng=rng,
                nf_batch=r.choice([1, 2, 3, 100]), batch=r.choice([0, 0, 0, n // 2 - 7]))


def gen_flow(r, multi):
    return dict(kind=r.choice(["tiny", "spline", "realnvp"] if multi else ["tiny", "spline"]), seed=r.randint(0, 999),
                noise=r.choice([0.0, 0.3, 0.6]), white=r.random() < 0.6)


def shrinks(scn):
    from sim.world import shrink_list, set_path
    if "ops" in scn:
        yield from shrink_list(scn, "ops", 1)
    if scn["type"] == "plain" and scn["batch"]:
        yield set_path(scn, ["batch"], 0)
    if scn["type"] == "bundle" and scn["prod"] > 1:
        yield set_path(scn, ["prod"], 1)
    if scn["type"] == "pt" and len(scn["temps"]) > 2:
        yield {**scn, "temps": scn["temps"][:-1]}


def make_kernel(s, d, scale):
    import numpy as np
    import jax.numpy as jnp
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    st = float(s["step"] * scale)
    if s["kind"] == "grw":
        return GaussianRandomWalk(st)
    if s["kind"] == "mala":
        return MALA(st)
    g = np.random.default_rng(s["mseed"])
    if s["metric"] == "one":
        return HMC(step_size=st, n_leapfrog=s["leap"])
    if s["metric"] == "scalar":
        return HMC(condition_matrix=float(np.exp(0.4 * g.normal())), step_size=st, n_leapfrog=s["leap"])
    if s["metric"] == "diag":
        M = np.diag(np.exp(0.4 * g.normal(size=d)))
    else:
        B = np.eye(d) + 0.5 * g.normal(size=(d, d))
        M = B @ B.T / np.sqrt(max(np.linalg.det(B @ B.T), 0.05)) ** (1 / d) + 0.1 * np.eye(d)
    return HMC(condition_matrix=jnp.asarray(M, core.flt()), step_size=st, n_leapfrog=s["leap"])


def make_flow(s, d, x0):
    """A flow roughly where the target is, with perturbed (as if trained) parameters."""
    import numpy as np
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    from sim import world as W
    mu, cov = x0.mean(0), np.atleast_2d(np.cov(x0.T))
    if s["kind"] == "tiny":
        return W.TinyFlow(d, mu + 0.3, 0.5 * np.log(np.diag(cov)) + 0.3)
    key = jax.random.PRNGKey(s["seed"])
    kw = {}
    if s["white"]:
        kw = dict(data_mean=jnp.asarray(mu, core.flt()), data_cov=jnp.asarray(cov * 1.3, core.flt()))
    if s["kind"] == "spline":
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        m = MaskedCouplingRQSpline(d, 2, [4], 3, key, spline_range=(-4.0, 4.0), **kw)
    else:
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        m = RealNVP(d, 2, 4, key, **kw)
    return perturb(m, s["noise"], s["seed"] + 1)


def perturb(m, noise, seed):
    """Adds noise to the transformation's parameters (not base distribution or data scaling)."""
    import jax
    import equinox as eqx
    keys = iter(jax.random.split(jax.random.PRNGKey(seed), 200))

    def f(path, v):
        p = jax.tree_util.keystr(path)
        if eqx.is_inexact_array(v) and not any(w in p for w in ("base_dist", "_data", "mask")):
            return v + noise * jax.random.normal(next(keys), v.shape)
        return v
    return jax.tree_util.tree_map_with_path(f, m)


def verdict(ctx, bat, x, what, desc, moved):
    z, k = bat.worst(x)
    ctx.log(what, round(abs(z), 6))
    ctx.probes["ensemble comparisons"] += 1
    if abs(z) > Z:
        raise Violation("not-invariant", f"after {what} ({desc}) test function {k} of the ensemble moved by z = {z:.1f}; "
                        f"{moved:.0%} of the chains had moved")


def run(scn, ctx):
    {"plain": run_plain, "pt": run_pt, "bundle": run_bundle}[scn["type"]](scn, ctx)


def run_plain(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import world as W
    from sim.targets import Target, Battery
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    T = Target(scn["target"])
    d, n = T.d, scn["n"]
    q = np.random.default_rng(scn["seed"])
    x0 = T.sample(n, q).astype(core.flt())
    scale = float(np.median(x0.std(0)))
    bat = Battery(x0, scn["seed"] & 0xFFFFFF)
    res = {"logpdf": W.LogPDF(T.logpdf, n_dims=d), "state": W.State({k: k for k in "PLAB"}, name="state")}
    for k, s in enumerate(scn["kernels"]):
        res[f"k{k}"] = make_kernel(s, d, scale)
    if scn["flow"]:
        res["nf"] = NFProposal(make_flow(scn["flow"], d, x0), n_NFproposal_batch_size=scn["nf_batch"])
    key = core.make_key(scn["seed"], scn["rng"])
    x = jnp.asarray(x0)
    cache = {}
    for j, op in enumerate(scn["ops"]):
        if op[0] == "serial":
            _, k, steps, thin = op
            name, cls, fl = f"k{k}", TakeSerialSteps, "A"
            desc = f"{scn['kernels'][k]} on {scn['target']}"
        else:
            _, steps, thin = op
            name, cls, fl = "nf", TakeGroupSteps, "B"
            desc = f"{scn['flow']} batch {scn['nf_batch']} on {scn['target']}"
        m = steps // thin
        for b, sh in (("P", (n, m, d)), ("L", (n, m)), ("A", (n, m)), ("B", (n, m))):
            res[b] = W.Buffer(b, sh, 1)
        ck = (name, steps, thin)
        if ck not in cache:
            cache[ck] = cls("logpdf", name, "state", ["P", "L", fl], steps, thinning=thin, chain_batch_size=scn["batch"])
        st = cache[ck]
        st.set_current_position(0)
        prev = np.asarray(x)
        with sut(f"{cls.__name__} with {desc}"):
            key, res, x = st(key, res, x, T.data)
        xn = np.asarray(x)
        moved = float((xn != prev).any(-1).mean())
        ctx.steps += n * steps
        acc = float(np.asarray(res[fl].data).mean()) if m else 0.0
        ctx.state(op[0], scn["kernels"][op[1]]["kind"] if op[0] == "serial" else scn["flow"]["kind"],
                  scn["kernels"][op[1]].get("metric") if op[0] == "serial" else scn["nf_batch"], T.kind, int(acc * 10))
        ctx.probes["chains moved"] += moved > 0.02
        verdict(ctx, bat, xn, f"op {j} {op}", desc, moved)
        if m:
            mid = np.asarray(res["P"].data)[:, m // 2]
            verdict(ctx, bat, mid, f"op {j} {op} (recorded mid-run)", desc, moved)
        ctx.log(j, xn)


def run_pt(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import world as W
    from sim.targets import TemperedTarget, Battery
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.take_steps import TakeSerialSteps
    T = TemperedTarget(dict(d=scn["d"], seed=scn["tseed"], bimodal=scn["bimodal"], flat_prior=scn["flat_prior"]))
    n, d, temps = scn["n"], scn["d"], scn["temps"]
    q = np.random.default_rng(scn["seed"])
    X0 = np.stack([T.sample(t, n, q) for t in temps], axis=1).astype(core.flt())
    bats = [Battery(X0[:, k], (scn["seed"] + k) & 0xFFFFFF) for k in range(len(temps))]
    joint = Battery(X0.reshape(n, -1), scn["seed"] & 0xFFF, n_fun=30)
    res = {"tp": W.TemperedPDF(T.log_likelihood, T.log_prior, n_dims=d, n_temps=len(temps)),
           "logpdf": W.LogPDF(T.posterior(), n_dims=d),
           "kernel": make_kernel(scn["kernel"], d, float(X0[:, 0].std())),
           "hot": W.Buffer("hot", (n, len(temps) - 1, d), 2), "ladder": W.Buffer("ladder", (len(temps),), 0),
           "state": W.State({"training": False, **{k: k for k in "PLA"}}, name="state")}
    res["hot"].update_buffer(jnp.asarray(X0[:, 1:]))
    res["ladder"].update_buffer(jnp.asarray(temps, core.flt()))
    for b, sh in (("P", (n, 1, d)), ("L", (n, 1)), ("A", (n, 1))):
        res[b] = W.Buffer(b, sh, 1)
    pt = ParallelTempering(scn["n_steps"], "tp", "kernel", ["hot", "ladder"], "state")
    loc = TakeSerialSteps("logpdf", "kernel", "state", ["P", "L", "A"], 1)
    key = core.make_key(scn["seed"], scn["rng"])
    x = jnp.asarray(X0[:, 0])
    desc = f"{scn['kernel']} temps {temps} bimodal {scn['bimodal']} flat prior {scn['flat_prior']}"
    for j, op in enumerate(scn["ops"]):
        prev = np.concatenate([np.asarray(x)[:, None], np.asarray(res["hot"].data)], axis=1)
        loc.set_current_position(0)
        with sut(f"{op} with {desc}"):
            key, res, x = (pt if op == "pt" else loc)(key, res, x, T.data)
        X = np.concatenate([np.asarray(x)[:, None], np.asarray(res["hot"].data)], axis=1)
        moved = (X != prev).any(-1).mean(0)
        ctx.steps += n * (scn["n_steps"] * len(temps) if op == "pt" else 1)
        ctx.state(op, scn["kernel"]["kind"], scn["kernel"].get("metric"), len(temps), int(moved[0] * 10))
        ctx.probes["chains moved"] += bool(moved[0] > 0.02)
        for k in range(len(temps)):
            verdict(ctx, bats[k], X[:, k], f"op {j} {op}, temperature {temps[k]}", desc, float(moved[k]))
        verdict(ctx, joint, X.reshape(n, -1), f"op {j} {op}, all temperatures jointly", desc, float(moved[0]))
        ctx.log(j, op, X)


def run_bundle(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from sim.targets import TemperedTarget, Battery
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.resource.kernel.NF_proposal import NFProposal
    T = TemperedTarget(dict(d=scn["d"], seed=scn["tseed"], bimodal=scn["bimodal"], flat_prior=scn["flat_prior"]))
    n, d = scn["n"], scn["d"]
    b_scn = dict(scn, n_chains=n, n_dims=d, train=0, epochs=1, n_tempered=1)
    with sut("bundle construction"):
        if scn["pt"]:
            b = make_bundle(b_scn, T.log_likelihood, None if scn["flat_prior"] else T.log_prior)
        else:
            b = make_bundle(b_scn, T.posterior())
    q = np.random.default_rng(scn["seed"])
    temps = [1.0]
    if scn["pt"]:
        temps = np.asarray(b.resources["temperatures"].data).tolist()
    X0 = np.stack([T.sample(t, n, q) for t in temps], axis=1).astype(core.flt())
    flow = make_flow(scn["flow"], d, X0[:, 0])
    b.resources["model"] = flow
    b.resources["global_sampler"] = NFProposal(flow, n_NFproposal_batch_size=scn["nf_batch"])
    if scn["pt"]:
        b.strategies["initialize_tempered_positions"] = Lambda(
            lambda k, r, p, dd: r["tempered_positions"].update_buffer(jnp.asarray(X0[:, 1:])))
    smp = Sampler(d, n, jax.random.PRNGKey(scn["seed"] & 0xFFFFFF), resource_strategy_bundles=b)
    bats = [Battery(X0[:, k], (scn["seed"] + k) & 0xFFFFFF) for k in range(len(temps))]
    desc = f"{'PT' if scn['pt'] else 'plain'} bundle, flat prior {scn['flat_prior']}, flow {scn['flow']}"

    def after(name, args, out):
        if name not in ("local_stepper", "global_stepper", "parallel_tempering"):
            return
        moved = float((np.asarray(out[2]) != np.asarray(args[2])).any(-1).mean())
        ctx.steps += n
        ctx.state("bundle", name, scn["pt"], int(moved * 10))
        ctx.probes["chains moved"] += moved > 0.02
        verdict(ctx, bats[0], np.asarray(out[2]), name, desc, moved)
        if name == "parallel_tempering":
            hot = np.asarray(out[1]["tempered_positions"].data)
            for k in range(1, len(temps)):
                verdict(ctx, bats[k], hot[:, k - 1], f"{name}, temperature {temps[k]:.2f}", desc, moved)
        ctx.log(name, np.asarray(out[2]))

    W.spy_all(smp, after=after)
    with sut(desc):
        smp.sample(jnp.asarray(X0[:, 0]), T.data)
