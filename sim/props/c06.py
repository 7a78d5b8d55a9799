"""C06: chains are independent of each other and of batching."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 90, "thorough": 5000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "MCMC steps taken by the simulated chains"
RULE = ("A run draws a world (target with failing regions, kernels, flows, tempering, optimiser or a whole bundle without "
        "training) and a schedule, executes it, then executes it again from the same seed with one chain disturbed (other "
        "start, start far away, NaN, infinite or where the density fails; its tempered walkers too) and compares all other "
        "chains bitwise; then again with other batch sizes and compares all chains. Non-trivial: the disturbed chain's "
        "record changed. Distinct: different event logs.")
STATE_MEASURE = "(strategies in the schedule, disturbance, batch layout) combinations reached"
REAL = ["Sampler", "TakeSerialSteps", "TakeGroupSteps", "ParallelTempering", "AdamOptimization", "MALA", "HMC",
        "GaussianRandomWalk", "NFProposal", "MaskedCouplingRQSpline", "RealNVP", "both bundles in production"]
STUB = ["flow in part of the runs: diagonal Gaussian", "PRNG in part of the runs"]
ASSUMPTIONS = ["batched and unbatched programs may differ by float32 rounding: compared with tolerance, and a difference "
               "counts only if it appears for at least two of three keys"]


def gen(r, i, tier):
    from sim.mcmc import gen_kernel, gen_flow, gen_void
    from sim.targets import gen_target
    C = r.choice([2, 3, 4, 4, 5, 6, 8, 9])
    hurt = r.choice(["move", "far", "nan", "inf", "void", "huge"])
    if r.random() < 0.08:
        return dict(type="bundle", pt=r.random() < 0.7, n_chains=C, n_dims=r.choice([1, 2]), n_local=r.choice([2, 5]),
                    n_global=r.choice([2, 5]), train=0, prod=r.choice([1, 2]), epochs=1, batch=r.choice([0, 2, 3]),
                    n_temps=r.choice([2, 3]), n_tempered=r.choice([1, 2]), hurt=hurt, who=r.randrange(C), void=gen_void(r))
    d = r.choice([1, 2, 2, 3])
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        steps.append(dict(kind="serial", kernel=gen_kernel(r), n=r.choice([1, 3, 6])))
    if r.random() < 0.5:
        steps.append(dict(kind="group", flow=gen_flow(r, d), n=r.choice([1, 4, 7])))
    if r.random() < 0.4:
        steps.append(dict(kind="pt", kernel=gen_kernel(r), n=r.choice([1, 3]), temps=r.choice([[1.0, 1.5], [1.0, 2.0, 4.0]])))
    if r.random() < 0.25:
        steps.append(dict(kind="adam", n=r.choice([1, 5, 20]), noise=r.choice([0.0, 1.0, 10.0]), lr=r.choice([0.01, 0.3])))
    ops = [r.randrange(len(steps)) for _ in range(r.randint(2, 5))]
    return dict(type="plain", d=d, n_chains=C, target=gen_target(r, d), void=gen_void(r), steps=steps, ops=ops, hurt=hurt,
                who=r.choice([0, C - 1, r.randrange(C)]), batch=r.choice([0, 0, 2, 3, C - 1]),
                batches=[r.choice([2, 2, 3, 4, C - 1, C])], rng=r.choice(["sim", "sim", "threefry"]))


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    if scn["type"] == "bundle":
        for f, lo in (("prod", 1), ("n_local", 1), ("n_global", 1)):
            yield from shrink_int(scn, [f], lo)
        return
    yield from shrink_list(scn, "ops", 1)
    if scn["batches"]:
        yield set_path(scn, ["batches"], [])
    if scn["hurt"]:
        yield set_path(scn, ["hurt"], "")
    if scn["void"]["kind"] != "none":
        yield set_path(scn, ["void", "kind"], "none")
    if scn["batch"]:
        yield set_path(scn, ["batch"], 0)
    for k in sorted(set(scn["ops"])):
        yield from shrink_int(scn, ["steps", k, "n"], 1)


def hurt_row(row, kind, g, voids):
    import numpy as np
    if kind == "move":
        return row + g.normal(size=row.shape)
    if kind == "far":
        return row + 50.0
    if kind == "void" and len(voids):
        return voids[0]
    return np.full_like(row, {"nan": np.nan, "inf": np.inf, "huge": 3e38, "void": np.nan}[kind])


def compare_others(what, a, b, who):
    """Everything recorded for the chains other than `who` (leading axis) must be bitwise equal."""
    import numpy as np
    for (n1, x1), (n2, x2) in zip(a, b):
        keep = [c for c in range(len(x1)) if c != who]
        y1, y2 = x1[keep], x2[keep]
        if y1.tobytes() != y2.tobytes():
            c = keep[int(np.argwhere((y1.view(np.uint32) != y2.view(np.uint32)).reshape(len(keep), -1).any(1))[0][0])]
            raise Violation("chains-interact", f"{what}: {n1} of chain {c} changed when only chain {who} was disturbed: "
                            f"{np.ravel(x1[c])[:6].tolist()} -> {np.ravel(x2[c])[:6].tolist()}")


def run(scn, ctx):
    import numpy as np
    if scn["type"] == "bundle":
        return run_bundle(scn, ctx)
    w = World(scn)
    base = w.play(scn["batch"], w.x0, w.hot0, scn["seed"])
    ctx.log("base", [x for _, x in base])
    ctx.steps += w.steps
    names = sorted({scn["steps"][k]["kind"] for k in scn["ops"]})
    if scn["hurt"] and scn["n_chains"] > 1:
        g = np.random.default_rng(scn["seed"] + 1)
        x1, h1 = w.x0.copy(), w.hot0.copy()
        x1[scn["who"]] = hurt_row(x1[scn["who"]], scn["hurt"], g, w.voids)
        if g.random() < 0.5:
            for t in range(h1.shape[1]):
                h1[scn["who"], t] = hurt_row(h1[scn["who"], t], scn["hurt"], g, w.voids)
        dist = w.play(scn["batch"], x1, h1, scn["seed"])
        compare_others(f"start of chain {scn['who']} {scn['hurt']}, batch {scn['batch']}", base, dist, scn["who"])
        ctx.faults["chain disturbed: " + scn["hurt"]] += 1
        ctx.log("disturbed", [x for _, x in dist])
        ctx.probes["disturbed chain's record changed"] += any(
            x[scn["who"]].tobytes() != y[scn["who"]].tobytes() for (_, x), (_, y) in zip(base, dist))
        ctx.state("hurt", scn["hurt"], names, scn["batch"])
    for bs in scn["batches"]:
        if bs == scn["batch"] or not any(n in ("serial", "group") for n in names):
            continue
        bad = 0
        msg = ""
        for s in range(3):
            seed = scn["seed"] + s
            a = base if s == 0 else w.play(scn["batch"], w.x0, w.hot0, seed)
            b = w.play(bs, w.x0, w.hot0, seed)
            m = differs(a, b)
            if m is None:
                if s == 0:
                    break
            else:
                bad += 1
                msg = msg or m
        ctx.probes["batch layouts compared"] += 1
        C = scn["n_chains"]
        ctx.probes["batch layout with a partial last batch"] += 1 < bs < C and C % bs != 0
        ctx.probes["batch layout with full batches"] += 1 < bs < C and C % bs == 0
        ctx.state("batch", C, bs, scn["batch"], names)
        if bad >= 2:
            raise Violation("batching-changes-chains", f"batch size {bs} instead of {scn['batch']}: {msg}")


def differs(a, b):
    import numpy as np
    for (n1, x1), (n2, x2) in zip(a, b):
        if x1.shape != x2.shape:
            return f"{n1}: shapes {x1.shape} / {x2.shape}"
        with np.errstate(all="ignore"):
            ok = np.isclose(x1, x2, rtol=2e-3, atol=2e-3, equal_nan=True)
        if not ok.all():
            q = tuple(np.argwhere(~ok)[0])
            return f"{n1} at {list(map(int, q))} is {x1[q]} / {x2[q]}"
    return None


class World:
    def __init__(self, scn):
        import numpy as np
        import jax
        import jax.numpy as jnp
        from sim import world as W, mcmc
        from sim.targets import Target
        from sim.props.c01 import make_kernel, make_flow
        from flowMC.resource.kernel.NF_proposal import NFProposal
        T = Target(scn["target"])
        self.scn, self.T = scn, T
        d, C = scn["d"], scn["n_chains"]
        self.data = dict(T.data, bad=jnp.asarray(jnp.nan if scn["void"]["out"] == "nan" else -jnp.inf))
        f, self.data["user"] = mcmc.with_user_data(mcmc.with_void(T.logpdf, scn["void"]), C, d, scn["seed"])
        self.f = f
        g = np.random.default_rng(scn["seed"])
        pool = np.asarray(T.sample(40 + 8 * C, g), core.flt())
        lp = np.asarray(jax.jit(jax.vmap(f, (0, None)))(jnp.asarray(pool), self.data))
        self.voids = pool[~np.isfinite(lp)]
        ok = pool[np.isfinite(lp)]
        pool = ok if len(ok) > 2 * C else pool
        nh = max([len(s.get("temps", [1])) for s in scn["steps"]]) - 1
        self.x0 = pool[:C].copy()
        self.hot0 = pool[np.arange(C * max(nh, 1)) % len(pool)].reshape(C, max(nh, 1), d).copy()
        self.nh = nh
        self.kernels = {}
        for k, s in enumerate(scn["steps"]):
            if s["kind"] in ("serial", "pt"):
                self.kernels[k] = make_kernel(s["kernel"], d, 1.0)
            elif s["kind"] == "group":
                self.kernels[k] = NFProposal(make_flow(s["flow"], d, pool), n_NFproposal_batch_size=s["flow"]["nf_batch"])
        self.cache = {}
        self.logpdf = W.LogPDF(f, n_dims=d)
        self.tp = W.TemperedPDF(f, lambda x, data: -0.02 * jnp.sum(x**2), n_dims=d)

    def strategy(self, k, batch):
        from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.strategy.optimization import AdamOptimization
        import jax.numpy as jnp
        s = self.scn["steps"][k]
        if s["kind"] in ("pt", "adam"):
            batch = 0
        if (k, batch) not in self.cache:
            if s["kind"] == "serial":
                o = TakeSerialSteps("logpdf", f"k{k}", "state", ["P", "L", "A"], s["n"], chain_batch_size=batch, verbose=core.flag(self.scn, "verbose"))
            elif s["kind"] == "group":
                o = TakeGroupSteps("logpdf", f"k{k}", "state", ["P", "L", "B"], s["n"], chain_batch_size=batch, verbose=core.flag(self.scn, "verbose"))
            elif s["kind"] == "pt":
                o = ParallelTempering(s["n"], "tp", f"k{k}", ["hot", "lad"], "state", verbose=core.flag(self.scn, "verbose"))
            else:
                o = AdamOptimization(self.f, s["n"], s["lr"], s["noise"], jnp.array([[-20.0, 20.0]]))
            self.cache[(k, batch)] = o
        return self.cache[(k, batch)]

    def play(self, batch, x0, hot0, seed):
        """One execution of the schedule: a list of (what, array with a leading chain axis)."""
        import numpy as np
        import jax.numpy as jnp
        from sim import core, world as W
        scn = self.scn
        d, C = scn["d"], scn["n_chains"]
        self.steps = sum(scn["steps"][k]["n"] for k in scn["ops"]) * C
        total = max(1, sum(s["n"] for k in scn["ops"] for s in [scn["steps"][k]] if s["kind"] in ("serial", "group")))
        res = {"logpdf": self.logpdf, "tp": self.tp, "state": W.State({**{k: k for k in "PLAB"}, "training": False}, name="state")}
        for b, sh in (("P", (C, total, d)), ("L", (C, total)), ("A", (C, total)), ("B", (C, total))):
            res[b] = W.Buffer(b, sh, 1)
        for k, o in self.kernels.items():
            res[f"k{k}"] = o
        key = core.make_key(seed, scn["rng"])
        x = jnp.asarray(x0)
        cur = 0
        out = []
        hots = {}
        for j, k in enumerate(scn["ops"]):
            s = scn["steps"][k]
            st = self.strategy(k, batch)
            if s["kind"] == "pt":
                if k not in hots:
                    nh = len(s["temps"]) - 1
                    hots[k] = (W.Buffer("hot", (C, nh, d), 2), W.Buffer("lad", (nh + 1,), 0))
                    hots[k][0].update_buffer(jnp.asarray(hot0[:, :nh]))
                    hots[k][1].update_buffer(jnp.asarray(s["temps"], core.flt()))
                res["hot"], res["lad"] = hots[k]
            elif s["kind"] != "adam":
                st.set_current_position(cur)
                cur += s["n"]
            with sut(f"{s['kind']} {s}"):
                key, res, x = st(key, res, x, self.data)
            out.append((f"op {j} {s['kind']}: returned position", np.asarray(x)))
            if s["kind"] == "pt":
                out.append((f"op {j} tempered positions", np.asarray(res["hot"].data)))
        for b in "PLAB":
            out.append((f"buffer {b}", np.asarray(res[b].data)))
        return out


def run_bundle(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W, mcmc
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    C, d = scn["n_chains"], scn["n_dims"]
    data = {"m": jnp.asarray(0.3), "bad": jnp.asarray(jnp.nan if scn["void"]["out"] == "nan" else -jnp.inf)}
    f = mcmc.with_void(lambda x, data: -0.5 * jnp.sum((x - data["m"]) ** 2), scn["void"])
    g = np.random.default_rng(scn["seed"])
    x0 = (g.normal(size=(C, d))).astype(core.flt())
    out = []
    for disturbed in (False, True):
        x = x0.copy()
        if disturbed:
            x[scn["who"]] = hurt_row(x[scn["who"]], scn["hurt"], g, [])
        with sut("bundle construction"):
            b = make_bundle(scn, f)
        smp = Sampler(d, C, jax.random.PRNGKey(scn["seed"] & 0xFFFFFF), resource_strategy_bundles=b)
        with sut("Sampler.sample with a bundle"):
            smp.sample(jnp.asarray(x), data)
        names = [n for n in smp.resources if n.endswith("_production")] + (["tempered_positions"] if scn["pt"] else [])
        out.append([(n, np.asarray(smp.resources[n].data)) for n in sorted(names)])
        ctx.steps += C * scn["prod"] * (scn["n_local"] + scn["n_global"])
    compare_others(f"bundle, start of chain {scn['who']} {scn['hurt']}", out[0], out[1], scn["who"])
    ctx.log([x for _, x in out[0]], [x for _, x in out[1]])
    ctx.faults["chain disturbed: " + scn["hurt"]] += 1
    ctx.probes["bundle runs"] += 1
    ctx.state("bundle", scn["pt"], scn["hurt"], scn["batch"])
