"""C02: chains never enter a region where the density is undefined."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 100, "thorough": 5000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "MCMC steps taken by the simulated chains"
RULE = ("A run draws a target with failing regions (half-space, ball, shell, pseudo-random cells; NaN or -inf, with zero "
        "or failing gradient), failing flow densities and samples, failing likelihood or prior for tempering, and a "
        "random schedule of strategies; some chains start inside the failing region. After every strategy each chain and "
        "walker that stood on a finite density must still do so in every record, and every failure must be an ordinary "
        "rejection (records self-consistent; NaN and -inf give the same run). Non-trivial: a failing region was hit. "
        "Distinct: different event logs.")
STATE_MEASURE = "(strategy, kernel, void kind, void value, flow fault, acceptance quartile) combinations reached"
REAL = ["Sampler", "TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "MALA", "HMC", "GaussianRandomWalk",
        "NFProposal", "MaskedCouplingRQSpline", "RealNVP", "TrainModel and both bundles in part of the runs"]
STUB = ["flow in part of the runs: diagonal Gaussian with failing density or samples", "PRNG in part of the runs"]
ASSUMPTIONS = ["a log density of +inf counts as defined"]


def gen(r, i, tier):
    from sim.mcmc import gen_kernel, gen_flow, gen_void
    from sim.targets import gen_target
    if r.random() < 0.09:
        return dict(type="bundle", pt=r.random() < 0.6, n_chains=r.choice([3, 5]), n_dims=r.choice([1, 2]),
                    n_local=r.choice([3, 6]), n_global=r.choice([2, 5]), train=r.choice([1, 2]), prod=1, epochs=1,
                    n_temps=r.choice([2, 3]), n_tempered=1, void=gen_void(r), target=None, nf_batch=r.choice([2, 10000]),
                    step=r.choice([0.3, 1.0]), rng="threefry")
    d = r.choice([1, 2, 2, 3])
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        steps.append(dict(kind="serial", kernel=gen_kernel(r), n=r.choice([1, 4, 8, 16])))
    if r.random() < 0.6:
        steps.append(dict(kind="group", flow=gen_flow(r, d, faulty=True), n=r.choice([1, 4, 8])))
    if r.random() < 0.5:
        temps = [1.0]
        for _ in range(r.choice([1, 2, 3])):
            temps.append(round(temps[-1] * r.choice([1.0001, 1.5, 3.0, 20.0]), 4))
        steps.append(dict(kind="pt", kernel=gen_kernel(r), n=r.choice([1, 3]), temps=temps, training=r.random() < 0.4,
                          prior_void=r.random() < 0.5))
    ops = [r.randrange(len(steps)) for _ in range(r.randint(2, 6))]
    v = gen_void(r)
    if v["kind"] == "none" and r.random() < 0.7:
        v["kind"] = "cells"
    return dict(type="plain", d=d, n_chains=r.choice([2, 4, 6]), target=gen_target(r, d), void=v, void2=gen_void(r),
                steps=steps, ops=ops, batch=r.choice([0, 0, 2, 3]), bad_starts=r.choice([0, 0, 1]),
                twin=r.random() < 0.5, rng=r.choice(["sim", "sim", "threefry"]))


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    if scn["type"] == "bundle":
        for f, lo in (("train", 0), ("n_local", 2), ("n_global", 1), ("n_chains", 2), ("n_dims", 1)):
            yield from shrink_int(scn, [f], lo)
        return
    yield from shrink_list(scn, "ops", 1)
    for f in ("void2", "void"):
        if scn[f]["kind"] != "none":
            yield set_path(scn, [f, "kind"], "none")
    if scn["batch"]:
        yield set_path(scn, ["batch"], 0)
    if scn["twin"]:
        yield set_path(scn, ["twin"], False)
    if scn["bad_starts"]:
        yield set_path(scn, ["bad_starts"], 0)
    yield from shrink_int(scn, ["n_chains"], 2)
    for k in sorted(set(scn["ops"])):
        yield from shrink_int(scn, ["steps", k, "n"], 1)


def run(scn, ctx):
    if scn["type"] == "bundle":
        return run_bundle(scn, ctx)
    a = execute(scn, ctx, scn["void"]["out"])
    if a is None or not scn["twin"] or scn["void"]["kind"] == "none" or scn["void"]["grad"] == "nan" or \
            (scn["void2"]["kind"] != "none" and scn["void2"]["grad"] == "nan") or scn["bad_starts"]:
        return
    other = "ninf" if scn["void"]["out"] == "nan" else "nan"
    b = execute(scn, core.Ctx(), other, checks=False)
    ctx.probes["runs repeated with NaN and -inf exchanged"] += 1
    import numpy as np
    for (n1, x1), (n2, x2) in zip(a, b):
        if not np.array_equal(x1, x2, equal_nan=True):
            raise Violation("nan-differs-from-minus-inf", f"after {n1} the chains differ between a density of "
                            f"{scn['void']['out']} and of {other} in the failing region: {x1.tolist()[:2]} / {x2.tolist()[:2]}")


def execute(scn, ctx, out, checks=True):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W, mcmc
    from sim.targets import Target
    from sim.props.c01 import make_kernel, make_flow
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.Sampler import Sampler
    T = Target(scn["target"])
    d, C = scn["d"], scn["n_chains"]
    data = dict(T.data, bad=jnp.asarray(jnp.nan if out == "nan" else -jnp.inf))
    f = mcmc.with_void(T.logpdf, scn["void"])
    prior = mcmc.with_void(lambda x, data: -0.02 * jnp.sum(x**2), scn["void2"])
    use_prior = any(s["kind"] == "pt" and s["prior_void"] for k in scn["ops"] for s in [scn["steps"][k]])
    full = (lambda x, data: f(x, data) + prior(x, data)) if use_prior else f
    lp_jit = jax.jit(jax.vmap(full, (0, None)))
    lp_of = lambda x: np.asarray(lp_jit(jnp.asarray(x), data))
    g = np.random.default_rng(scn["seed"])
    pool = np.concatenate([np.asarray(T.sample(300, g)), g.normal(size=(300, d)) * 2]).astype(core.flt())
    g.shuffle(pool)
    ok = np.isfinite(lp_of(pool))
    if ok.sum() < C * 4:
        return None
    x0 = pool[ok][:C].copy()
    hot0 = pool[ok][C:]
    nb = scn["bad_starts"] if (~ok).sum() and scn["bad_starts"] < C else 0
    for c in range(nb):
        x0[c] = pool[~ok][c]
    res = {"logpdf": W.LogPDF(full, n_dims=d), "state": W.State({**{k: k for k in "PLAB"}, "training": False}, name="state")}
    strategies = {}
    for k, s in enumerate(scn["steps"]):
        if k not in scn["ops"]:
            continue
        if s["kind"] == "serial":
            res[f"k{k}"] = make_kernel(s["kernel"], d, 1.0)
            strategies[f"s{k}"] = TakeSerialSteps("logpdf", f"k{k}", "state", ["P", "L", "A"], s["n"],
                                                  chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
        elif s["kind"] == "group":
            fl = s["flow"]
            model = mcmc.make_fault_flow(fl, d) if fl.get("fault") else make_flow(fl, d, pool[ok])
            res[f"k{k}"] = NFProposal(model, n_NFproposal_batch_size=fl["nf_batch"])
            strategies[f"s{k}"] = TakeGroupSteps("logpdf", f"k{k}", "state", ["P", "L", "B"], s["n"],
                                                 chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
        else:
            nh = len(s["temps"]) - 1
            res[f"k{k}"] = make_kernel(s["kernel"], d, 1.0)
            pr = prior if use_prior else (lambda x, data: 0.0)
            res[f"tp{k}"] = W.TemperedPDF(f, pr, n_dims=d)
            res[f"hot{k}"] = W.Buffer("hot", (C, nh, d), 2)
            res[f"hot{k}"].update_buffer(jnp.asarray(hot0[np.arange(C * nh) % len(hot0)].reshape(C, nh, d)))
            res[f"lad{k}"] = W.Buffer("lad", (nh + 1,), 0)
            res[f"lad{k}"].update_buffer(jnp.asarray(s["temps"], core.flt()))
            strategies[f"s{k}"] = ParallelTempering(s["n"], f"tp{k}", f"k{k}", [f"hot{k}", f"lad{k}"], "state")
    total = max(1, sum(s["n"] for k in scn["ops"] for s in [scn["steps"][k]] if s["kind"] != "pt"))
    for b, sh in (("P", (C, total, d)), ("L", (C, total)), ("A", (C, total)), ("B", (C, total))):
        res[b] = W.Buffer(b, sh, 1)
    cur, trail = [0], []
    for j, k in enumerate(scn["ops"]):
        strategies[f"{j}:s{k}"] = strategies[f"s{k}"]

    def before(name, key, resources, pos, d_):
        s = scn["steps"][int(name.split("s")[-1])]
        resources["state"].data["training"] = bool(s.get("training"))
        if s["kind"] != "pt":
            strategies["s" + name.split("s")[-1]].set_current_position(cur[0])

    def after(name, args, out_):
        k = int(name.split("s")[-1])
        s = scn["steps"][k]
        start, end = np.asarray(args[2]), np.asarray(out_[2])
        R = out_[1]
        what = f"{name} {s} on {scn['target']['kind']} void {scn['void']}"
        trail.append((name, end))
        ctx.steps += s["n"] * C
        stood = np.isfinite(lp_of(start))
        e = np.isfinite(lp_of(end))
        if checks and (stood & ~e).any():
            c = int(np.argwhere(stood & ~e)[0])
            raise Violation("entered-undefined", f"{what}: chain {c} returned at {end[c].tolist()} where the log density is "
                            f"{lp_of(end)[c]}; it stood at {start[c].tolist()}")
        if s["kind"] == "pt":
            hot = np.asarray(R[f"hot{k}"].data)
            trail.append((name + " hot", hot))
            h = np.isfinite(lp_of(hot.reshape(-1, d))).reshape(hot.shape[:2])
            h[:nb] = True     # the walkers of a chain that started undefined may pass it on by exchange
            if checks and not h.all():
                c, t = np.argwhere(~h)[0]
                raise Violation("walker-entered-undefined", f"{what}: walker {t + 1} of chain {c} is at {hot[c, t].tolist()} "
                                "where the log density is undefined")
            ctx.probes["tempered walkers checked"] += hot.shape[0] * hot.shape[1]
            ctx.log(name, end, hot)
            ctx.state("pt", s["kernel"]["kind"], scn["void"]["kind"], out, scn["void2"]["kind"])
            return
        a, b = cur[0], cur[0] + s["n"]
        cur[0] = b
        P, L = np.asarray(R["P"].data)[:, a:b], np.asarray(R["L"].data)[:, a:b]
        A = np.asarray(R["A" if s["kind"] == "serial" else "B"].data)[:, a:b]
        trail.append((name + " records", P))
        ctx.log(name, P, L, A, end)
        if not checks:
            return
        fin = np.isfinite(lp_of(P.reshape(-1, d))).reshape(P.shape[:2]) & np.isfinite(L)
        if (stood[:, None] & ~fin).any():
            c, q = np.argwhere(stood[:, None] & ~fin)[0]
            raise Violation("entered-undefined", f"{what}: chain {c} record {q} is {P[c, q].tolist()} with log density "
                            f"{L[c, q]}; the chain stood at {start[c].tolist()}")
        na, nr = mcmc.check_records(Violation, what, P, L, A, start, lp_of)
        fault = s.get("flow", {}).get("fault", "")
        ctx.faults[f"density {out} in {scn['void']['kind']} region"] += nr if scn["void"]["kind"] != "none" else 0
        if fault:
            ctx.faults["flow " + fault] += s["n"]
        ctx.probes["rejected steps"] += nr
        ctx.probes["accepted steps"] += na
        ctx.state(s["kind"], s.get("kernel", s.get("flow"))["kind"], scn["void"]["kind"], out, fault,
                  int(4 * na / max(1, na + nr)))

    smp = Sampler(d, C, core.make_key(scn["seed"], scn["rng"]), resources=res, strategies=strategies,
                  strategy_order=[f"{j}:s{k}" for j, k in enumerate(scn["ops"])])
    W.spy_all(smp, before=before, after=after)
    ctx.faults["chain started where the density is undefined"] += nb
    with sut("Sampler.sample"):
        smp.sample(jnp.asarray(x0), data)
    return trail


def run_bundle(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W, mcmc
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    C, d = scn["n_chains"], scn["n_dims"]
    data = {"m": jnp.asarray(0.3), "bad": jnp.asarray(jnp.nan if scn["void"]["out"] == "nan" else -jnp.inf)}
    f = mcmc.with_void(lambda x, data: -0.5 * jnp.sum((x - data["m"]) ** 2), scn["void"])
    lp_jit = jax.jit(jax.vmap(f, (0, None)))
    lp_of = lambda x: np.asarray(lp_jit(jnp.asarray(x), data))
    g = np.random.default_rng(scn["seed"])
    x0 = mcmc.good_start(lp_of, C, d, g, 1.5)
    if x0 is None:
        return
    with sut("bundle construction"):
        b = make_bundle(scn, f)
    smp = Sampler(d, C, jax.random.PRNGKey(scn["seed"] & 0xFFFFFF), resource_strategy_bundles=b)
    bad = []

    def after(name, args, out):
        end = np.asarray(out[2])
        xs = [end]
        if scn["pt"]:
            xs.append(np.asarray(out[1]["tempered_positions"].data).reshape(-1, d))
        for x in xs:
            lp = lp_of(x)
            if not np.isfinite(lp).all():
                q = int(np.argwhere(~np.isfinite(lp))[0])
                raise Violation("bundle-entered-undefined", f"after {name} a {'chain' if x is end else 'walker'} is at "
                                f"{x[q].tolist()} where the log density is {lp[q]}")
        ctx.log(name, end)
    W.spy_all(smp, after=after)
    with sut("Sampler.sample with a bundle"):
        smp.sample(jnp.asarray(x0), data)
    for ph in ("training", "production"):
        P = np.asarray(smp.resources[f"positions_{ph}"].data)
        L = np.asarray(smp.resources[f"log_prob_{ph}"].data)
        lp = lp_of(P.reshape(-1, d)).reshape(P.shape[:2])
        bad = ~(np.isfinite(lp) & np.isfinite(L))
        if bad.any():
            c, q = np.argwhere(bad)[0]
            raise Violation("bundle-recorded-undefined", f"{ph} record {q} of chain {c}: {P[c, q].tolist()} with log density "
                            f"{L[c, q]} (target: {lp[c, q]})")
        ctx.steps += bad.size
        ctx.log(ph, P, L)
    ctx.probes["bundle runs"] += 1
    ctx.faults[f"density {scn['void']['out']} in {scn['void']['kind']} region"] += scn["void"]["kind"] != "none"
    ctx.state("bundle", scn["pt"], scn["void"]["kind"])
