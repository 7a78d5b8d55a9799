"""C17: chains make progress and reach the target within a bounded number of steps (liveness)."""
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 110, "thorough": 4000}
TIME_UNIT = "chain transitions"
Z = 8.0
RULE = ("A run draws a target with an exact sampler, starts thousands of chains far in its tail, at a single point or in a "
        "single mode, and gives a schedule of local kernels, flow proposals and tempering a fixed budget of steps, part of "
        "it under a density fault (NaN or -inf everywhere or in a region, NaN gradients, raised errors) that then ends; or "
        "runs a whole bundle with real training. Once the faults are over every chain has to have moved and, at the end of "
        "the budget, the ensemble has to agree with the exact sample (two-sample z-test, |z| < 8). Non-trivial: the start "
        "was distinguishable from the target. Distinct: different event logs.")
STATE_MEASURE = "(schedule kind, kernel, target, start kind, fault kind) combinations reached"
REAL = ["TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "MALA", "HMC", "GaussianRandomWalk", "NFProposal",
        "MaskedCouplingRQSpline", "RealNVP", "TrainModel", "both bundles", "Sampler", "LogPDF", "TemperedPDF"]
STUB = ["in part of the runs: the PRNG (registered with JAX) and the flow (diagonal Gaussian)"]
ASSUMPTIONS = ["the step budgets are a multiple of what the unchanged kernels need at the drawn step sizes; "
               "a slow-down that stays within the budget is not reported"]


def gen_kernel(r):
    k = r.choice(["grw", "mala", "mala", "hmc", "hmc"])
    s = dict(kind=k, step=r.choice([0.5, 0.8, 1.2] if k == "grw" else [0.4, 0.6, 0.8]))
    if k == "hmc":
        s.update(metric=r.choice(["one", "scalar", "diag", "dense"]), leap=r.choice([2, 3, 5]), mseed=r.randint(0, 999),
                 step=r.choice([0.2, 0.3]))
    return s


def gen(r, i, tier):
    from sim.targets import gen_target
    from sim.props.c01 import gen_flow
    if i % 24 == 5:
        return dict(type="bundle", pt=r.random() < 0.5, d=r.choice([1, 2]), tseed=r.randint(0, 10**6), rng="threefry",
                    kernel_step=r.choice([0.3, 0.6]), thin=r.choice([1, 2]), batch=r.choice([0, 0, 150]))
    c = r.random()
    fault = dict(kind=r.choice(["none", "nan", "ninf", "nan-region", "ninf-region", "nan-grad", "raise"]), calls=r.choice([1, 2, 3]),
                 after=r.choice([0, 1]))
    rng = r.choice(["sim", "sim", "threefry"])
    if c < 0.3:
        k = gen_kernel(r)
        k["step"] = {"grw": 1.5, "mala": 1.0, "hmc": 0.35}[k["kind"]]
        if k["kind"] == "hmc":
            k["leap"] = 5
        return dict(type="modes", sep=r.choice([4.0, 5.0, 6.0]), w=r.choice([0.3, 0.5, 0.7]), kernel=k, rng=rng,
                    d=r.choice([1, 1, 2]), ladder=r.choice([[1.0, 4.0, 16.0, 60.0], [1.0, 3.0, 9.0, 27.0, 80.0]]), fault=fault,
                    n_steps=r.choice([3, 5]), flat_prior=r.random() < 0.3)
    d = r.choice([1, 2, 2, 3])
    t = gen_target(r, d)
    far = r.choice([4.0, 6.0, 9.0])   # no kernel is expected to be stable arbitrarily far in a steep tail
    far = min(far, {"banana": 2.5, "skew": 5.0}.get(t["kind"], far))
    flow = gen_flow(r, d > 1) if c > 0.65 else None
    return dict(type="reach", target=t, kernel=gen_kernel(r), flow=flow, start=r.choice(["far", "point", "corner"]),
                far=far, fault=fault, rng=rng, nf_batch=r.choice([1, 3, 100]), batch=r.choice([0, 0, 700]),
                sseed=r.randint(0, 10**6))


def shrinks(scn):
    from sim.world import set_path
    if scn["type"] == "bundle":
        return
    if scn["fault"]["kind"] != "none":
        yield set_path(scn, ["fault", "kind"], "none")
        if scn["fault"]["calls"] > 1:
            yield set_path(scn, ["fault", "calls"], 1)
    if scn.get("batch"):
        yield set_path(scn, ["batch"], 0)
    if scn.get("flow"):
        yield set_path(scn, ["flow"], None)


def two_sample(bat, ref, x):
    """Largest |z| between the ensemble x and the exact sample ref (both (n, d))."""
    import numpy as np
    a, b = bat.eval(x), ref
    v = a.var(0) / len(a) + b.var(0) / len(b)
    v = np.maximum(v, 0.25 * b.var(0) / len(a) + 1e-12)
    z = (a.mean(0) - b.mean(0)) / np.sqrt(v)
    k = int(np.argmax(np.abs(z)))
    return float(abs(z[k])), k


def faulty(f, fault):
    """f under a fault that data['fault'] switches on."""
    import jax.numpy as jnp
    kind = fault["kind"]

    def g(x, data):
        v, on = f(x, data), data["fault"]
        if kind == "nan":
            return jnp.where(on > 0, jnp.nan, v)
        if kind == "ninf":
            return jnp.where(on > 0, -jnp.inf, v)
        if kind in ("nan-region", "ninf-region"):
            bad = (on > 0) & (jnp.sin(3.0 * x[0]) > 0)
            return jnp.where(bad, jnp.nan if kind == "nan-region" else -jnp.inf, v)
        if kind == "nan-grad":      # the value is right, its derivative is not
            s = jnp.sqrt(jnp.where(on > 0, 0.0 * x[0], 1.0))
            return v + s * jnp.where(on > 0, 1.0, 0.0)
        return v
    return g


class Fault:
    """Switches the density fault on and off over the calls of a schedule."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx

    def on(self, j):
        s = self.spec
        return s["kind"] != "none" and s["after"] <= j < s["after"] + s["calls"]


def run(scn, ctx):
    {"reach": run_reach, "modes": run_modes, "bundle": run_bundle}[scn["type"]](scn, ctx)


def judge(ctx, bat, ref, x, what, start_z):
    z, k = two_sample(bat, ref, x)
    ctx.log(what, round(z, 6))
    ctx.probes["ensembles compared with the exact sample"] += 1
    ctx.probes[f"z at the end below {int(z) + 1}"] += 1
    if z > Z:
        raise Violation("target-not-reached", f"{what}: test function {k} still differs from the exact sample by z = {z:.1f} "
                        f"(z = {start_z:.1f} at the start)")


def run_reach(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import core, world as W
    from sim.targets import Target, Battery
    from sim.props.c01 import make_kernel, make_flow
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    T = Target(scn["target"])
    d, n, calls = T.d, 1500, 8
    q = np.random.default_rng(scn["seed"])
    R = T.sample(20000, q).astype(np.float32)
    bat = Battery(R, scn["seed"] & 0xFFFFFF)
    ref = bat.g0
    med = np.median(R, 0)
    cov = np.atleast_2d(np.cov(R.T))
    scale = float(np.sqrt(np.linalg.eigvalsh(cov)[0]))
    g = np.random.default_rng(scn["sseed"])
    if T.hard or scn["start"] == "corner":   # one extreme but allowed point of the support
        u = g.normal(size=d)
        x0 = np.repeat(R[np.argmax((R - med) @ u)][None], n, 0)
    elif scn["start"] == "point":
        u = g.normal(size=d)
        x0 = np.repeat((med + scn["far"] * np.sqrt(np.diag(cov)) * u / np.linalg.norm(u))[None], n, 0)
    else:
        u = g.normal(size=(n, d))
        x0 = med + scn["far"] * np.sqrt(np.diag(cov)) * u / np.linalg.norm(u, axis=1, keepdims=True)
    x0 = x0.astype(np.float32)
    f = faulty(T.logpdf, scn["fault"])
    data0 = dict(T.data, fault=jnp.asarray(0.0))
    kn = scn["kernel"]["kind"]
    # steps per call: enough for the slowest drawn kernel several times over
    spc = {"grw": 120, "mala": 100, "hmc": 60}[kn]
    if scn["target"]["kind"] in ("mix", "banana", "halfexp", "skew"):
        spc *= 2
    res = {"logpdf": W.LogPDF(f, n_dims=d), "k": make_kernel(scn["kernel"], d, scale),
           "state": W.State({k: k for k in "PLAQMB"}, name="state")}
    for b, sh in (("P", (n, spc, d)), ("L", (n, spc)), ("A", (n, spc)), ("Q", (n, 5, d)), ("M", (n, 5)), ("B", (n, 5))):
        res[b] = W.Buffer(b, sh, 1)
    loc = TakeSerialSteps("logpdf", "k", "state", ["P", "L", "A"], spc, chain_batch_size=scn["batch"])
    glo = None
    if scn["flow"]:
        res["nf"] = NFProposal(make_flow(scn["flow"], d, R[:3000]), n_NFproposal_batch_size=scn["nf_batch"])
        glo = TakeGroupSteps("logpdf", "nf", "state", ["Q", "M", "B"], 5, chain_batch_size=scn["batch"])
    F = Fault(scn["fault"], ctx)
    key = core.make_key(scn["seed"], scn["rng"])
    x = jnp.asarray(x0)
    sz, _ = two_sample(bat, ref, x0)
    desc = f"{scn['kernel']} {scn['flow'] or ''} on {scn['target']} from {scn['start']} {scn['far']} fault {scn['fault']}"
    ctx.state(kn, scn["target"]["kind"], scn["start"], scn["fault"]["kind"], bool(glo))
    ctx.probes["starts distinguishable from the target"] += sz > Z
    moved = np.zeros(n, bool)
    j, good = 0, 0
    while good < calls:
        on = F.on(j)
        data = dict(data0, fault=jnp.asarray(1.0 if on else 0.0))
        for st, pb in ((loc, "P"),) + (((glo, "Q"),) if glo else ()):
            prev = np.asarray(x)
            st.set_current_position(0)
            if on and scn["fault"]["kind"] == "raise":
                ok, res["logpdf"] = res["logpdf"], W.LogPDF(boom, n_dims=d)
                try:
                    st(key, res, x, data)
                except core.Injected:
                    pass
                except Exception as e:
                    if "injected" not in str(e):
                        raise
                else:
                    raise Violation("fault-swallowed", f"{desc}: the density raised, the strategy returned normally")
                finally:
                    res["logpdf"] = ok
                ctx.faults["raise"] += 1
                continue
            with sut(desc):
                key, res, x = st(key, res, x, data)
            ctx.steps += n * st.n_steps
            xn = np.asarray(x)
            if on:
                ctx.faults["density fault call: " + scn["fault"]["kind"]] += 1
            else:
                moved |= (np.asarray(res[pb].data) != prev[:, None]).any((1, 2))
            ctx.log(j, on, pb, xn)
        good += not on
        j += 1
        if not on and good == 2 and not moved.all():
            c = int(np.argmin(moved))
            raise Violation("chain-stuck", f"{desc}: {int((~moved).sum())} of {n} chains have not moved in {good * spc} steps "
                            f"without a fault, e.g. chain {c} at {np.asarray(x)[c].tolist()}")
    judge(ctx, bat, ref, np.asarray(x), desc, sz)


def boom(x, data):
    from sim.core import Injected
    raise Injected("injected density error")


def run_modes(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import core, world as W
    from sim.targets import Battery
    from sim.props.c01 import make_kernel
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.take_steps import TakeSerialSteps
    d, n, a, w, temps = scn["d"], 800, scn["sep"] / 2, scn["w"], scn["ladder"]
    lw = (float(np.log(w)), float(np.log(1 - w)))
    ps = 6.0

    def ll(x, data):     # modes of unit-ish width around data['a'] and its mirror image
        y = x.at[0].set(0.0)
        s = 0.5
        return (jnp.logaddexp(lw[0] - 0.5 * ((x[0] - data["a"]) / s) ** 2, lw[1] - 0.5 * ((x[0] + data["a"]) / s) ** 2)
                - 0.5 * jnp.sum(y**2) / s**2)

    def lpr(x, data):
        return 0.0 if scn["flat_prior"] else -0.5 * jnp.sum(x**2) / ps**2
    f = faulty(ll, scn["fault"])
    q = np.random.default_rng(scn["seed"])
    # exact posterior sample: the Gaussian prior (or none) changes both modes alike
    pr = 1 / 0.25 + (0 if scn["flat_prior"] else 1 / ps**2)
    m = a / 0.25 / pr
    side = np.where(q.random(20000) < w, 1.0, -1.0)
    R = q.normal(size=(20000, d)) / np.sqrt(pr)
    R[:, 0] += side * m
    R = R.astype(np.float32)
    bat = Battery(R, scn["seed"] & 0xFFFFFF)
    s0 = 1.0 if q.random() < 0.5 else -1.0
    X0 = q.normal(size=(n, len(temps), d)) * 0.4
    X0[:, :, 0] += s0 * a
    X0 = X0.astype(np.float32)
    K = len(temps)
    res = {"tp": W.TemperedPDF(f, lpr, n_dims=d, n_temps=K), "k": make_kernel(scn["kernel"], d, 0.5),
           "logpdf": W.LogPDF(lambda x, data: f(x, data) + lpr(x, data), n_dims=d),
           "hot": W.Buffer("hot", (n, K - 1, d), 2), "ladder": W.Buffer("ladder", (K,), 0),
           "state": W.State({"training": False, **{k: k for k in "PLA"}}, name="state")}
    res["hot"].update_buffer(jnp.asarray(X0[:, 1:]))
    res["ladder"].update_buffer(jnp.asarray(temps, jnp.float32))
    for b, sh in (("P", (n, 5, d)), ("L", (n, 5)), ("A", (n, 5))):
        res[b] = W.Buffer(b, sh, 1)
    pt = ParallelTempering(scn["n_steps"], "tp", "k", ["hot", "ladder"], "state")
    loc = TakeSerialSteps("logpdf", "k", "state", ["P", "L", "A"], 5)
    F = Fault(scn["fault"], ctx)
    key = core.make_key(scn["seed"], scn["rng"])
    x = jnp.asarray(X0[:, 0])
    sz, _ = two_sample(bat, bat.g0, X0[:, 0])
    desc = f"tempering {temps} {scn['kernel']} modes {scn['sep'] / 0.5} widths apart in {d}d weights {w} fault {scn['fault']}"
    ctx.state("modes", scn["kernel"]["kind"], scn["sep"], scn["fault"]["kind"], K)
    ctx.probes["starts distinguishable from the target"] += sz > Z
    calls = CALLS_MODES
    j = good = 0
    while good < calls:
        on = F.on(j // 5)
        data = dict(a=jnp.asarray(a, jnp.float32), fault=jnp.asarray(1.0 if on else 0.0))
        if on and scn["fault"]["kind"] == "raise":
            ok, res["tp"] = res["tp"], W.TemperedPDF(boom, lpr, n_dims=d, n_temps=K)
            try:
                pt(key, res, x, data)
            except Exception as e:
                if "injected" not in str(e):
                    raise
            else:
                raise Violation("fault-swallowed", f"{desc}: the density raised, tempering returned normally")
            finally:
                res["tp"] = ok
            ctx.faults["raise"] += 1
        else:
            with sut(desc):
                key, res, x = pt(key, res, x, data)
                if j % 5 == 0:
                    loc.set_current_position(0)
                    key, res, x = loc(key, res, x, data)
            ctx.steps += n * K * scn["n_steps"]
            if on:
                ctx.faults["density fault call: " + scn["fault"]["kind"]] += 1
        good += not on
        j += 1
        if j % 20 == 0:
            ctx.log(j, np.asarray(x))
    judge(ctx, bat, bat.g0, np.asarray(x), desc, sz)


CALLS_MODES = 300


def run_bundle(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim.targets import TemperedTarget, Battery
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    d, n = scn["d"], 400
    T = TemperedTarget(dict(d=d, seed=scn["tseed"], bimodal=False, flat_prior=False))
    q = np.random.default_rng(scn["seed"])
    R = T.sample(1.0, 20000, q).astype(np.float32)
    bat = Battery(R, scn["seed"] & 0xFFFFFF)
    sd = R.std(0)
    u = q.normal(size=(n, d))
    x0 = (R.mean(0) + 5.0 * sd * u / np.linalg.norm(u, axis=1, keepdims=True) + 2.0 * sd).astype(np.float32)
    b_scn = dict(scn, n_chains=n, n_dims=d, n_local=30, n_global=6, train=3, prod=3, epochs=3, n_temps=3, max_temp=5.0,
                 n_tempered=3, train_batch=500, n_max=1000, thin_l=scn["thin"], thin_g=1, step=scn["kernel_step"] * float(sd.min()) * 1.5)
    with sut("bundle construction"):
        b = make_bundle(b_scn, T.log_likelihood, T.log_prior) if scn["pt"] else make_bundle(b_scn, T.posterior())
    smp = Sampler(d, n, jax.random.PRNGKey(scn["seed"] & 0xFFFFFF), resource_strategy_bundles=b)
    sz, _ = two_sample(bat, bat.g0, x0)
    desc = f"{'tempered' if scn['pt'] else 'plain'} bundle in {d}d, step {scn['kernel_step']}"
    with sut(desc):
        smp.sample(jnp.asarray(x0), T.data)
    ctx.steps += n * 6 * 36
    ctx.state("bundle", scn["pt"], d)
    P = np.asarray(smp.resources["positions_production"].data)
    ctx.probes["starts distinguishable from the target"] += sz > Z
    ga = np.asarray(smp.resources["global_accs_production"].data)
    ga = ga[np.isfinite(ga)]
    ctx.probes["global acceptance decile %d" % int(10 * ga.mean())] += 1
    for name, k in (("production half way", P.shape[1] // 2), ("production end", P.shape[1] - 1)):
        judge(ctx, bat, bat.g0, P[:, k], f"{desc}, {name}", sz)
    ctx.log(P)
