"""C11: a flow stays a bijection whose density matches its samples."""
import os
import shutil
import tempfile

from sim.core import Violation, from_repo, sut

LEVEL = "exploration"
RUNS = {"quick": 64, "thorough": 3000}
TIME_UNIT = "flow operations (training epochs, reloads, changes, proposals)"
RULE = ("A run builds a spline flow, RealNVP or flow-matching model with a random base distribution and data scaling and leads it "
        "through a random history of training (any learning rate, momentum and weight decay; data of any scale and correlation, "
        "some with non-finite values), saves interrupted or not, reloads into other templates, parameter changes and use as a "
        "proposal. After every operation the maps must undo each other with opposite log determinants equal to the "
        "determinants of their Jacobians, and at the end the density must be normalised and match fresh samples. Non-trivial: "
        "at least one operation. Distinct: different event logs.")
STATE_MEASURE = "(model kind, dimension, base distribution, operation history) combinations reached"
REAL = ["MaskedCouplingRQSpline", "RealNVP", "FlowMatchingModel", "bijections, couplings, base distributions", "train/save/load of the models",
        "NFProposal.sample_flow", "optax, diffrax"]
STUB = ["a logistic base distribution supplied by the simulated user"]
ASSUMPTIONS = ["the base covariance stays positive definite", "checks of maps and densities are done with the float32 parameters in float64 "
               "arithmetic, so that only the maps themselves and not rounding are judged", "a base distribution's sample is an array"]

COMBOS = [("rqs", 2), ("nvp", 2), ("rqs", 1), ("fm", 2), ("nvp", 3), ("rqs", 3), ("fm", 1), ("nvp", 2)]


def gen(r, i, tier):
    kind, d = COMBOS[i % len(COMBOS)]
    ops = []
    for _ in range(r.randint(1, 4)):
        c = r.random()
        if c < 0.45:
            ops.append(["train", r.randint(1, 4), r.choice([1e-3, 0.03, 0.3]), r.choice([0.0, 0.5, 0.9]), r.choice([1e-4, 1e-4, 0.5]), r.randint(0, 10**6),
                        r.choice(["plain", "plain", "big", "tiny", "corr", "nan"])])
        elif c < 0.65:
            ops.append(["reload", r.randint(0, 10**6)])
        elif c < 0.85:
            ops.append(["change", r.choice([0.1, 0.3, 0.6]), r.randint(0, 10**6)])
        else:
            ops.append(["propose", r.choice([1, 3, 7]), r.choice([1, 2, 3, 100])])
    return dict(kind=kind, d=d, variant=r.randrange(2), base=r.choice(["std", "gauss", "gauss", "learn", "logistic"]) if kind != "fm" else "std",
                scaling=r.random() < 0.7, model=r.randint(0, 10**6), ops=ops, via=r.choice(["sample", "proposal"]) if kind != "fm" else "sample")


def shrinks(scn):
    from sim.world import shrink_list, set_path
    yield from shrink_list(scn, "ops", 0)
    for f, v in (("base", "std"), ("scaling", False), ("via", "sample")):
        if scn[f] != v:
            yield set_path(scn, [f], v)


_cache = {}


def logistic(loc):
    from flowMC.resource.model.common import Distribution
    import jax
    import jax.numpy as jnp
    if "L" not in _cache:
        class Logistic(Distribution):
            loc: jax.Array

            def __init__(self, loc):
                self.loc = loc

            def log_prob(self, x):
                z = x - self.loc
                return jnp.sum(-z - 2 * jax.nn.softplus(-z))

            def sample(self, rng_key, n_samples):
                return self.loc + jax.random.logistic(rng_key, (n_samples, self.loc.shape[0]))
        _cache["L"] = Logistic
    return _cache["L"](loc)


def build(scn, seed):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flowMC.resource.model.common import Gaussian, MLP
    g = np.random.default_rng(seed)
    d, v = scn["d"], scn["variant"]
    key = jax.random.PRNGKey(seed & 0xFFFF)
    kw = {}
    m = jnp.asarray(g.normal(size=d) * 2, jnp.float32)
    a = g.normal(size=(d, d)) * np.exp(g.normal(size=(d, 1)))
    cov = jnp.asarray(a @ a.T + 0.3 * np.eye(d), jnp.float32)
    if scn["scaling"]:
        kw = dict(data_mean=m, data_cov=cov)
    b = g.normal(size=(d, d)) * 0.5
    bm, bc = jnp.asarray(0.7 * g.normal(size=d), jnp.float32), jnp.asarray(b @ b.T + 0.5 * np.eye(d), jnp.float32)
    if scn["base"] in ("gauss", "learn"):
        kw["base_dist"] = Gaussian(bm, bc, learnable=scn["base"] == "learn")
    elif scn["base"] == "logistic":
        kw["base_dist"] = logistic(bm)
    if scn["kind"] == "rqs":
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        return MaskedCouplingRQSpline(d, [2, 3][v], [4], [3, 4][v], key, [(-4.0, 4.0), (-3.0, 5.0)][v], **kw)
    if scn["kind"] == "nvp":
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        return RealNVP(d, [2, 3][v], 4, key, **kw)
    from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
    if "P" not in _cache:
        _cache["P"] = Path(CondOTScheduler())
        _cache["tanh"] = jax.nn.tanh
    return FlowMatchingModel(Solver(MLP([d + 1, 6, d], key, scale=0.5, activation=_cache["tanh"])), _cache["P"], **kw)


def optimiser():
    """The sampler's own optimiser chain with its settings open to change."""
    import optax
    if "O" not in _cache:
        def make(learning_rate, b1, weight_decay):
            return optax.chain(optax.clip_by_global_norm(1.0), optax.adamw(learning_rate=learning_rate, b1=b1, weight_decay=weight_decay))
        _cache["O"] = optax.inject_hyperparams(make)(learning_rate=1e-2, b1=0.9, weight_decay=1e-4)
    return _cache["O"]


def dataset(d, how, seed, n=64):
    import numpy as np
    g = np.random.default_rng(seed)
    a = g.normal(size=(d, d)) + np.eye(d)
    x = g.normal(size=(n, d)) @ a.T + g.normal(size=d) * 3
    x[: n // 3] += 2.0
    if how == "big":
        x = x * 300 + 5000 * g.normal(size=d)
    elif how == "tiny":
        x = x * 1e-2
    elif how == "corr" and d > 1:
        x[:, 1] = x[:, 0] + 0.05 * x[:, 1]
    elif how == "nan":
        x[3, 0] = np.nan
    return x.astype(np.float32)


def train(model, scn, op):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    _, epochs, lr, b1, wd, seed, how = op
    if scn["base"] == "learn":
        lr = min(lr, 0.03)        # a covariance that is trained directly leaves the positive definite cone otherwise
        wd = 1e-4
    o = optimiser()
    st = o.init(eqx.filter(model, eqx.is_array))
    st = st._replace(hyperparams=dict(learning_rate=jnp.asarray(lr), b1=jnp.asarray(b1), weight_decay=jnp.asarray(wd)))
    x = jnp.asarray(dataset(scn["d"], how, seed))
    key = jax.random.PRNGKey(seed & 0xFFFF)
    if scn["kind"] == "fm":
        g = np.random.default_rng(seed + 1)
        x0 = jnp.asarray(g.normal(size=x.shape), jnp.float32)
        t = jnp.asarray(g.random((len(x), 1)), jnp.float32)
        return model.train(key, (x0, x, t), o, st, epochs, 32, False)[1]
    return model.train(key, x, o, st, epochs, 32, False)[1]


def to64(model):
    import jax
    import jax.numpy as jnp
    return jax.tree.map(lambda x: x.astype(jnp.float64) if isinstance(x, jax.Array) and x.dtype == jnp.float32 else x, model)


def fns():
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    if "F" not in _cache:
        def maps(m, x):
            y, ld = jax.vmap(m.forward)(x)
            x2, ld2 = jax.vmap(m.inverse)(y)
            J = jax.vmap(jax.jacfwd(lambda v: m.forward(v)[0]))(x)
            w, ldi = jax.vmap(m.inverse)(x)
            w2, ldi2 = jax.vmap(m.forward)(w)
            JI = jax.vmap(jax.jacfwd(lambda v: m.inverse(v)[0]))(x)
            c, ldc = jax.vmap(lambda v: m(v))(x)
            return y, ld, x2, ld2, J, w, ldi, w2, ldi2, JI, c, ldc
        _cache["F"] = dict(maps=eqx.filter_jit(maps), lp=eqx.filter_jit(lambda m, x: jax.vmap(m.log_prob)(x).reshape(len(x))),
                           sample=eqx.filter_jit(lambda m, k: m.sample(k, N)),
                           flow=eqx.filter_jit(lambda p, k, n: p.sample_flow(k, n)))
    return _cache["F"]


N = 8000


def check_maps(what, model, scn, g):
    import numpy as np
    import jax.numpy as jnp
    d = scn["d"]
    lo, hi = ([(-4.0, 4.0), (-3.0, 5.0)][scn["variant"]] if scn["kind"] == "rqs" else (-3.0, 3.0))
    x = g.uniform(lo - 1, hi + 1, size=(24, d))
    x[:4] = g.normal(size=(4, d)) * 15
    x[4:8] = g.uniform(lo, lo + 0.02, size=(4, d))
    x[8:10] = g.uniform(hi - 0.02, hi, size=(2, d))
    x[10:15] = np.array([0.0, lo, hi, (lo + hi) / 2, lo + (hi - lo) / 4])[:, None]     # knots of a flow that has not learnt yet
    x[15:20] = x[g.integers(10, 15, 5)]
    x[15:20, -1] = g.normal(size=5)
    with sut(what):
        out = [np.asarray(v) for v in fns()["maps"](to64(model), jnp.asarray(x))]
    y, ld, x2, ld2, J, w, ldi, w2, ldi2, JI, c, ldc = out
    if not all(np.isfinite(v).all() for v in out):
        raise Violation("not-finite", f"{what}: a map or log determinant is not finite at finite points")
    sj, lj = np.linalg.slogdet(J)
    si, li = np.linalg.slogdet(JI)
    scale = 1 + np.abs(x).max(1)

    def bad(name, err, tol, k):
        q = int(np.argmax(err - tol))
        if err[q] > tol[q]:
            raise Violation(name, f"{what}: off by {err[q]:.3g} at {x[q].tolist()} (tolerance {tol[q]:.2g})")
    cond = np.maximum(np.linalg.cond(J), np.exp(np.abs(ld))).clip(1, 1e6)
    condi = np.maximum(np.linalg.cond(JI), np.exp(np.abs(ldi))).clip(1, 1e6)
    bad("inverse-of-forward", np.abs(x2 - x).max(1), 1e-7 * scale * cond, "x")
    bad("forward-of-inverse", np.abs(w2 - x).max(1), 1e-7 * scale * condi, "x")
    bad("logdets-not-opposite", np.abs(ld + ld2), 1e-5 * (1 + np.abs(ld)), "ld")
    bad("logdets-not-opposite", np.abs(ldi + ldi2), 1e-5 * (1 + np.abs(ldi)), "ld")
    bad("logdet-forward", np.abs(lj - ld) + (sj <= 0), 1e-5 * (1 + np.abs(ld)), "ld")
    bad("logdet-inverse", np.abs(li - ldi) + (si <= 0), 1e-5 * (1 + np.abs(ldi)), "ld")
    bad("call-not-forward", np.abs(c - y).max(1) + np.abs(ldc - ld), 1e-9 * (1 + np.abs(y).max(1)), "c")


def check_density(what, model, scn, g, ctx):
    """The density the model reports is that of the samples it draws."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    d = scn["d"]
    m64 = to64(model)
    key = jax.random.PRNGKey(int(g.integers(1 << 30)))
    with sut(what):
        if scn["via"] == "proposal":
            from flowMC.resource.kernel.NF_proposal import NFProposal
            x, lp = fns()["flow"](NFProposal(m64, n_NFproposal_batch_size=3000), key, N)
            x, lp = np.asarray(x, np.float64), np.asarray(lp)
            again = np.asarray(fns()["lp"](m64, jnp.asarray(x)))
            if x.shape != (N, d) or np.abs(lp - again).max() > 1e-6 * (1 + np.abs(again).max()):
                raise Violation("proposal-density", f"{what}: the flow proposal reports {lp[:2]} at points where the model's density is {again[:2]}")
        else:
            x = np.asarray(fns()["sample"](m64, key), np.float64)
            if x.shape != (N, d):
                raise Violation("sample-shape", f"{what}: {N} samples have shape {x.shape}")
            lp = np.asarray(fns()["lp"](m64, jnp.asarray(x)))
        x32 = fns()["sample"](model, key)
        lp32, lp64 = np.asarray(fns()["lp"](model, x32)), np.asarray(fns()["lp"](m64, x32.astype(jnp.float64)))
    if not np.isfinite(x).all() or not np.isfinite(lp).all():
        raise Violation("not-finite", f"{what}: {int((~np.isfinite(x)).any(1).sum())} samples and {int((~np.isfinite(lp)).sum())} of their "
                        "log densities are not finite")
    if np.median(np.abs(lp32 - lp64)) > 0.02 * (1 + np.median(np.abs(lp64))):
        raise Violation("float32-density", f"{what}: the log density in float32 is off by {np.median(np.abs(lp32 - lp64)):.3g} in the median")
    tol = 0.01 if scn["kind"] != "fm" else 0.04
    mu, S = x.mean(0), np.atleast_2d(np.cov(x.T))
    med = np.median(x, axis=0)
    q1, q3 = np.quantile(x, [0.25, 0.75], axis=0)
    sd = np.maximum((q3 - q1) / 1.35, 1e-12)
    used = 0
    L0 = np.linalg.cholesky(S + 1e-12 * np.diag(np.diag(S)) + 1e-30 * np.eye(d))
    for k in range(8):
        # For every bounded f, p and q: E_p[f q / (q + B p)] = E_q[f p / (q + B p)]. Both sides are averages of terms bounded
        # by one, so the empirical Bernstein inequality (failure probability 1e-9) holds however the tails of p and q compare.
        h = [1.2, 0.8, 0.5, 0.3][k % 4]
        c = med if k < 2 else x[int(g.integers(N))]
        L = h * (L0 if k < 2 else np.diag(sd))
        u = g.normal(size=(N, d))
        y = c + u @ L.T
        with sut(what):
            lpy = np.asarray(fns()["lp"](m64, jnp.asarray(y)))
        if np.isnan(lpy).any():
            raise Violation("not-finite", f"{what}: the log density at {y[np.isnan(lpy)][0].tolist()} is NaN")
        zx = np.linalg.solve(L, (x - c).T).T
        lq = lambda z: -0.5 * np.sum(z**2, 1) - np.log(np.abs(np.diag(L))).sum() - 0.5 * d * np.log(2 * np.pi)
        lqx, lqy = lq(zx), lq(u)
        B = float(np.exp(np.clip(np.median(lqy - lpy), 0.0, np.log(10.0))))
        tp = B / (1.0 + B * np.exp(np.clip(lp - lqx, -700, 700)))
        tq = B / (B + np.exp(np.clip(lqy - lpy, -700, 700)))
        w1, w2 = np.tanh(zx), np.tanh(u)
        F = [("1", 1.0, 1.0)] + [(f"tanh z{a}", w1[:, a], w2[:, a]) for a in range(d)]
        F += [(f"tanh z{a} tanh z{b}", w1[:, a] * w1[:, b], w2[:, a] * w2[:, b]) for a in range(d) for b in range(a + 1)]
        for name, fp, fq in F:
            a, b = fp * tp, fq * tq
            slack = np.sqrt(2 * 21.4 / N) * (a.std() + b.std()) + 7 * (B + 1) * 21.4 / (3 * (N - 1))
            if abs(a.mean() - b.mean()) > slack + tol:
                raise Violation("density-not-of-samples", f"{what}: with f = {name} and a normal q around {np.round(c, 3).tolist()}, widths "
                                f"{np.round(np.abs(np.diag(L)), 3).tolist()}, E_p[f q/(q + B p)] is {a.mean():.4f} over samples of p and E_q[f p/(q + B p)] "
                                f"with the reported p is {b.mean():.4f}; chance explains {slack:.4f} (B = {B:.2g})")
        used += 1
    ctx.probes["test densities compared"] += used
    if d == 1:
        xs = x[:, 0]
        a, b = xs.min(), xs.max()
        grid = np.linspace(a - 1.0 * (b - a), b + 1.0 * (b - a), 60001)
        with sut(what):
            p = np.exp(np.asarray(fns()["lp"](m64, jnp.asarray(grid[:, None]))))
        dx = grid[1] - grid[0]
        F = np.cumsum(p) * dx
        rough = np.abs(np.diff(p)).sum() * dx / max(F[-1], 1e-9)      # discretisation error bound
        if rough < 0.02:
            if abs(F[-1] - 1) > 0.03 + rough + (0.05 if scn["kind"] == "fm" else 0):
                raise Violation("not-normalised", f"{what}: the density integrates to {F[-1]:.4f}")
            ks = np.abs(np.interp(np.sort(xs), grid, F / F[-1]) - (np.arange(N) + 0.5) / N).max()
            if ks > 0.065 + rough:
                raise Violation("samples-not-of-density", f"{what}: the samples' distribution is {ks:.3f} away from the density's (Kolmogorov-Smirnov, {N} samples)")
            ctx.probes["densities integrated"] += 1


def run(scn, ctx):
    tmp = tempfile.mkdtemp(prefix="c11_", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        _run(scn, ctx, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(scn, ctx, tmp):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax.experimental import enable_x64
    from sim import core
    g = np.random.default_rng(scn["seed"] & 0xFFFFFFFF)
    with sut("construction"):
        model = build(scn, scn["model"])
    hist = []
    for j, op in enumerate([["new"]] + scn["ops"]):
        what = f"{scn['kind']} d={scn['d']} base={scn['base']} after {hist + [op[0]]}"
        if op[0] == "train":
            with sut(what):
                model = train(model, scn, op)
            ctx.steps += op[1]
            ctx.faults["training data with NaN"] += op[6] == "nan"
            ctx.probes["trainings"] += 1
        elif op[0] == "reload":
            with sut(what):
                model.save_resource(os.path.join(tmp, "m"))
                model = build(scn, op[1]).load_resource(os.path.join(tmp, "m"))
            ctx.steps += 1
            ctx.faults["reload into another template"] += 1
        elif op[0] == "change":
            leaves, tree = jax.tree_util.tree_flatten(model)
            paths = [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(model)[0]]
            out = []
            for p, x in zip(paths, leaves):
                if isinstance(x, jax.Array) and x.dtype == jnp.float32 and ("weight" in p or "bias" in p or "scale" in p or "shift" in p):
                    x = x + jnp.asarray(g.normal(size=x.shape) * op[1], jnp.float32)
                elif p.endswith("_data_mean"):
                    x = x + jnp.asarray(g.normal(size=x.shape), jnp.float32)
                out.append(x)
            model = jax.tree_util.tree_unflatten(tree, out)
            ctx.steps += 1
        elif op[0] == "propose" and scn["kind"] != "fm":
            from flowMC.resource.kernel.NF_proposal import NFProposal
            with sut(what):
                p = NFProposal(model, n_NFproposal_batch_size=op[2])
                x, lp = fns()["flow"](p, jax.random.PRNGKey(int(g.integers(1 << 30))), op[1])
                want = np.asarray(fns()["lp"](model, x))
            if x.shape != (op[1], scn["d"]) or lp.shape != (op[1],) or np.abs(np.asarray(lp) - want).max() > 1e-3 * (1 + np.abs(want).max()):
                raise Violation("proposal-density", f"{what}: proposal log densities {np.asarray(lp)} but the flow's are {want}")
            ctx.steps += op[1]
        hist.append(op[0])
        bad = [x for x in jax.tree_util.tree_leaves(model) if isinstance(x, jax.Array) and x.dtype == jnp.float32 and not np.isfinite(np.asarray(x)).all()]
        if bad:
            raise Violation("parameters-not-finite", f"{what}: the model has non-finite parameters")
        if scn["kind"] != "fm":
            with enable_x64():
                check_maps(what, model, scn, g)
        ctx.state(scn["kind"], scn["d"], scn["base"], *hist)
        ctx.log(j, op, core.fingerprint(jax.tree_util.tree_leaves(model)))
    with enable_x64():
        check_density(what, model, scn, g, ctx)
    ctx.log("ok")
