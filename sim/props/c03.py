"""C03: every recorded step is self-consistent."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 110, "thorough": 5000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "MCMC steps taken by the simulated chains"
RULE = ("A run draws a target (its density reads the user's data, sometimes under the key the flow stepper uses "
        "internally), failing regions, kernels with random metrics and step sizes, flows (some with failing densities), "
        "batching, thinning, and a random schedule of serial, flow-proposal and tempering strategies run through Sampler; "
        "after each, every new record is recomputed and compared with its predecessor. Non-trivial: steps ran. "
        "Distinct: different event logs.")
STATE_MEASURE = "(kernel, target, void kind, thinning, acceptance quartile) combinations reached"
REAL = ["Sampler", "TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "MALA", "HMC", "GaussianRandomWalk",
        "NFProposal", "MaskedCouplingRQSpline", "RealNVP", "LogPDF", "TemperedPDF", "Buffer", "State"]
STUB = ["flow in part of the runs: diagonal Gaussian with failing density or samples", "PRNG in part of the runs"]
ASSUMPTIONS = ["the recorded log density may differ from the target's by rounding (1e-3 + 3e-5 relative in single, a millionth of it in double precision)"]


def gen(r, i, tier):
    from sim.mcmc import gen_kernel, gen_flow, gen_void
    from sim.targets import gen_target
    d = r.choice([1, 2, 2, 3])
    steps = []
    for _ in range(r.choice([1, 2, 2])):
        n = r.choice([1, 2, 4, 6, 10])
        steps.append(dict(kind="serial", kernel=gen_kernel(r), n=n, thin=r.choice([1, 1, 1, r.randint(1, n)])))
    if r.random() < 0.6:
        n = r.choice([1, 2, 4, 6, 9])
        steps.append(dict(kind="group", flow=gen_flow(r, d, faulty=True), n=n, thin=r.choice([1, 1, r.randint(1, n)])))
    if r.random() < 0.35:
        steps.append(dict(kind="pt", kernel=gen_kernel(r), n=r.choice([1, 3]), temps=r.choice([[1.0, 2.0], [1.0, 2.0, 5.0]])))
    ops = [r.randrange(len(steps)) for _ in range(r.randint(2, 6))]
    return dict(d=d, n_chains=r.choice([1, 2, 4, 6]), target=gen_target(r, d), void=gen_void(r), steps=steps, ops=ops,
                batch=r.choice([0, 0, 2, 3]), key_name=r.choice(["shift", "n_steps", "n_steps"]), shift=r.uniform(-1, 1),
                rng=r.choice(["sim", "sim", "threefry"]), spread=r.choice([0.5, 1.5, 4.0]))


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    yield from shrink_list(scn, "ops", 1)
    if scn["void"]["kind"] != "none":
        yield set_path(scn, ["void", "kind"], "none")
    yield from shrink_int(scn, ["n_chains"], 1)
    if scn["batch"]:
        yield set_path(scn, ["batch"], 0)
    for k in sorted(set(scn["ops"])):
        yield from shrink_int(scn, ["steps", k, "n"], 1)


def run(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import core, world as W, mcmc
    from sim.targets import Target
    from sim.props.c01 import make_kernel, make_flow
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.Sampler import Sampler
    T = Target(scn["target"])
    d, C, kn = scn["d"], scn["n_chains"], scn["key_name"]
    data = dict(T.data, bad=jnp.asarray(jnp.nan if scn["void"]["out"] == "nan" else -jnp.inf))
    data[kn] = jnp.asarray(scn["shift"], core.flt())
    base = mcmc.with_void(T.logpdf, scn["void"])

    base, data["user"] = mcmc.with_user_data(base, C, d, scn["seed"])

    def f(x, data):   # depends on every entry of the user's data
        return base(x, data) + data[kn] * jnp.tanh(jnp.sum(x)) * 3.0

    lp_jit = jax.jit(jax.vmap(f, (0, None)))
    now = [data]
    lp_of = lambda x: np.asarray(lp_jit(jnp.asarray(x), now[0]))
    g = np.random.default_rng(scn["seed"])
    x0 = np.asarray(T.sample(C * 3, g), core.flt())
    x0 = np.where(g.random((C * 3, 1)) < 0.3, x0 * scn["spread"], x0).astype(core.flt())[:C]
    res = {"logpdf": W.LogPDF(f, n_dims=d), "state": W.State({**{k: k for k in "PLAB"}, "training": False}, name="state")}
    scale = 1.0
    strategies, order = {}, []
    for k, s in enumerate(scn["steps"]):
        if k not in scn["ops"]:
            continue
        if s["kind"] == "serial":
            res[f"k{k}"] = make_kernel(s["kernel"], d, scale)
            strategies[f"s{k}"] = TakeSerialSteps("logpdf", f"k{k}", "state", ["P", "L", "A"], s["n"], thinning=s["thin"],
                                                  chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
        elif s["kind"] == "group":
            fl = s["flow"]
            xs = np.asarray(T.sample(500, g), core.flt())
            model = mcmc.make_fault_flow(fl, d) if fl.get("fault") else make_flow(fl, d, xs)
            res[f"k{k}"] = NFProposal(model, n_NFproposal_batch_size=fl["nf_batch"])
            strategies[f"s{k}"] = TakeGroupSteps("logpdf", f"k{k}", "state", ["P", "L", "B"], s["n"], thinning=s["thin"],
                                                 chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
        else:
            res[f"k{k}"] = make_kernel(s["kernel"], d, scale)
            res[f"tp{k}"] = W.TemperedPDF(f, lambda x, data: -0.05 * jnp.sum(x**2), n_dims=d)
            res[f"hot{k}"] = W.Buffer("hot", (C, len(s["temps"]) - 1, d), 2)
            res[f"hot{k}"].update_buffer(jnp.repeat(jnp.asarray(x0)[:, None], len(s["temps"]) - 1, axis=1))
            res[f"lad{k}"] = W.Buffer("lad", (len(s["temps"]),), 0)
            res[f"lad{k}"].update_buffer(jnp.asarray(s["temps"], core.flt()))
            strategies[f"s{k}"] = ParallelTempering(s["n"], f"tp{k}", f"k{k}", [f"hot{k}", f"lad{k}"], "state",
                                                 verbose=core.flag(scn, "verbose"))
    total = sum(s["n"] // s["thin"] for k in scn["ops"] for s in [scn["steps"][k]] if s["kind"] != "pt")
    for b, sh in (("P", (C, total, d)), ("L", (C, total)), ("A", (C, total)), ("B", (C, total))):
        res[b] = W.Buffer(b, sh, 1)
    cur = [0]
    twins = {}
    last = [x0]
    order = []
    for j, k in enumerate(scn["ops"]):
        order.append(f"{j}:s{k}")
        strategies[f"{j}:s{k}"] = strategies[f"s{k}"]

    def before(name, key, resources, pos, d_):
        if not np.array_equal(np.asarray(pos), last[0], equal_nan=True):
            raise Violation("start-not-predecessors-end", f"{name} started from {np.asarray(pos).tolist()}, its predecessor "
                            f"returned {last[0].tolist()}")
        k = int(name.split("s")[-1])
        if scn["steps"][k]["kind"] != "pt":
            resources_s = strategies[f"s{k}"]
            resources_s.set_current_position(cur[0])

    def after(name, args, out):
        k = int(name.split("s")[-1])
        s = scn["steps"][k]
        start, end = np.asarray(args[2]), np.asarray(out[2])
        last[0] = end
        ctx.steps += s["n"] * C
        what = f"{name} {s} on {scn['target']['kind']} void {scn['void']['kind']}"
        if s["kind"] == "pt":
            ctx.log(name, end)
            ctx.state("pt", scn["void"]["kind"], len(s["temps"]))
            return
        R = out[1]
        m = s["n"] // s["thin"]
        a, b = cur[0], cur[0] + m
        cur[0] = b
        P, L = np.asarray(R["P"].data)[:, a:b], np.asarray(R["L"].data)[:, a:b]
        A = np.asarray(R["A" if s["kind"] == "serial" else "B"].data)[:, a:b]
        ctx.log(name, P, L, A, end)
        if s["thin"] == 1:
            na, nr = mcmc.check_records(Violation, what, P, L, A, start, lp_of)
            ctx.probes["accepted steps"] += na
            ctx.probes["rejected steps"] += nr
            ctx.faults[f"rejections next to a failing region ({scn['void']['out']})"] += nr if scn["void"]["kind"] != "none" else 0
            ctx.state(s["kind"], s.get("kernel", s.get("flow"))["kind"], scn["target"]["kind"], scn["void"]["kind"],
                      int(4 * na / max(na + nr, 1)))
        elif m:
            want = lp_of(P.reshape(-1, d)).reshape(C, m)
            tol = (1e-3 + 3e-5 * np.abs(np.where(np.isfinite(want), want, 0))) * core.eps()
            bad = ~((np.abs(L - want) <= tol) | (L == want) | (np.isnan(L) & np.isnan(want)))
            if bad.any():
                c, q = np.argwhere(bad)[0]
                raise Violation("log-density-mismatch", f"{what}: chain {c} record {q}: recorded {L[c, q]}, the target at "
                                f"the recorded position {P[c, q].tolist()} is {want[c, q]}")
            ctx.probes["thinned records"] += m * C
        if m and s["n"] % s["thin"] == 0 and not np.array_equal(P[:, -1], end, equal_nan=True):
            raise Violation("returned-not-last", f"{what}: returned {end.tolist()}, last record {P[:, -1].tolist()}")
        if s["thin"] > 1:
            # the same call without thinning shows every step the chains took
            if k not in twins:
                cls = TakeSerialSteps if s["kind"] == "serial" else TakeGroupSteps
                twins[k] = cls("logpdf", f"k{k}", "state", ["P", "L", "A" if s["kind"] == "serial" else "B"], s["n"],
                               chain_batch_size=scn["batch"], verbose=core.flag(scn, "verbose"))
            full = {**R, **{b: W.Buffer(b, (C, s["n"]) + R[b].data.shape[2:], 1) for b in "PLAB"}}
            twins[k].set_current_position(0)
            with sut("the unthinned call"):
                _, full, fend = twins[k](args[0], full, args[2], args[3])
            FP, FL = np.asarray(full["P"].data), np.asarray(full["L"].data)
            FA = np.asarray(full["A" if s["kind"] == "serial" else "B"].data)
            mcmc.check_records(Violation, what + " without thinning", FP, FL, FA, start, lp_of)
            if not np.array_equal(FP[:, -1], end, equal_nan=True):
                raise Violation("returned-not-last", f"{what}: returned {end.tolist()}, after the last of its {s['n']} steps "
                                f"the chains stand at {FP[:, -1].tolist()}")
            for nm, rec, fl in (("position", P, FP), ("log density", L, FL), ("flag", A, FA)):
                if not np.array_equal(rec, fl[:, s["thin"] - 1::s["thin"]][:, :m], equal_nan=True):
                    raise Violation("thinned-record-mixed", f"{what}: the recorded {nm} is not that of the retained steps")
            ctx.probes["thinned calls compared with the unthinned call"] += 1

    smp = Sampler(d, C, core.make_key(scn["seed"], scn["rng"]), resources=res, strategies=strategies, strategy_order=order)
    W.spy_all(smp, before=before, after=after)
    with sut("Sampler.sample"):
        smp.sample(jnp.asarray(x0), data)
    if core.flag(scn, "again", 3):
        # the same sampler continues from where it stands with other data
        now[0] = {**data, kn: jnp.asarray(0.5 - scn["shift"], core.flt())}
        cur[0] = 0
        start = last[0]
        smp.rng_key = core.make_key(scn["seed"] + 1, scn["rng"])   # the same key would propose the same places again
        with sut("Sampler.sample with other data"):
            smp.sample(jnp.asarray(start), now[0])
        ctx.probes["sampled again with other data"] += 1
    if "bad" in data and scn["void"]["kind"] != "none":
        ctx.faults["density " + scn["void"]["out"] + " in " + scn["void"]["kind"]] += 1
