"""C07: same seed, same results, whatever else runs."""
from sim.core import Violation, derive

LEVEL = "exploration"
RUNS = {"quick": 40, "thorough": 1500}
REPLICAS = 1.0
REPLICA_IS_PROPERTY = True
TIME_UNIT = "strategy calls"
RULE = ("A run draws two to four samplers (steppers with every kernel, tempering, optimisation, training with flow steps, whole "
        "bundles), some of which fail part way, runs the first alone, then again while the others run interleaved with it in "
        "threads that the simulator switches at strategy calls, key splits, buffer and state writes and training epochs, or "
        "before it, inside it or half built beside it, with other clocks, global random states and garbage; every record, "
        "model, state and key must be bitwise the same. Every run is executed again by another process under another hash "
        "seed, after other runs and after a sampler of the same shapes with another density, and once more with another seed, which must give different chains. Non-trivial: at least one "
        "strategy call. Distinct: different event logs.")
STATE_MEASURE = "distinct schedules (sequences of task switches) taken"
REAL = ["Sampler", "all strategies", "all kernels", "both bundles", "NFModel.train", "JAX tracing and compilation caches"]
STUB = ["the thread scheduler (seeded, cooperative)", "time.time and the global random states (set by the simulator)",
        "a diagonal Gaussian flow in the training jobs outside bundles"]
ASSUMPTIONS = ["the density is a pure function", "single-threaded XLA on one machine"]


# ------------------------------------------------------------------ scenarios
def gen_job(r, like=None):
    t = r.choice(["steps", "steps", "pt", "train", "adam"])
    j = dict(type=t, C=r.choice([1, 2, 3]), d=r.choice([1, 2, 3]), n=r.choice([1, 2, 3]), kernel=r.choice(["grw", "mala", "hmc"]),
             seed=r.randint(0, 10**6), target=r.randint(0, 10**6), loops=r.choice([1, 2, 2]), thin=r.choice([1, 1, 2]), batch=r.choice([0, 0, 2]),
             fail=r.choice(["", "", "", "", "density", "unknown", "overflow", "missing"]), fail_at=r.randint(0, 5),
             rng="sim" if r.random() < 0.7 else "threefry", step=r.choice([0.2, 0.5]))
    if like is not None and r.random() < 0.6:      # the same shapes with another density, data or seed
        j = dict(like, seed=j["seed"], target=j["target"], fail=j["fail"], fail_at=j["fail_at"])
    return j


def gen(r, i, tier):
    bundle = i % 20 == 4
    first = gen_job(r)
    first["fail"] = "" if r.random() < 0.8 else first["fail"]
    if bundle:
        first = dict(first, type="bundle", pt=(i // 20) % 2 == 1, fail="", loops=1, n=2, d=r.choice([1, 2]), thin=1)
    others = [gen_job(r, first) for _ in range(1 if bundle else r.randint(1, 3))]
    for o in others:
        if o["type"] == "bundle" and r.random() < 0.5:
            o.update(gen_job(r))
    return dict(jobs=[first] + others, mode=r.choice(["threads", "threads", "threads", "before", "nested", "beside"]), sticky=r.choice([0.0, 0.3, 0.8]),
                sched=r.randint(0, 10**9), entropy=r.randint(0, 10**6), other_seed=r.choice([None, "one", "high", "far"]))


def shrinks(scn):
    from sim.world import set_path
    for k in range(1, len(scn["jobs"])):
        yield {**scn, "jobs": scn["jobs"][:k] + scn["jobs"][k + 1:]}
    for k, j in enumerate(scn["jobs"]):
        for f, v in (("C", 1), ("d", 1), ("n", 1), ("loops", 1), ("thin", 1), ("batch", 0), ("fail", "")):
            if j[f] not in (v,):
                yield set_path(scn, ["jobs", k, f], v)
    if scn["other_seed"]:
        yield {**scn, "other_seed": None}
    if scn["mode"] != "before" and not scn.get("cross_process"):
        yield {**scn, "mode": "before"}
    if scn["sticky"] != 0.8:
        yield {**scn, "sticky": 0.8}


# ------------------------------------------------------------------ jobs
def job_key(j, impl=None):
    """A key that is a function of the job's seed (or its two words given directly)."""
    import jax.numpy as jnp
    from sim import core
    if "words" in j:
        import jax
        import numpy as np
        raw = np.array(j["words"], np.uint32)
        if j["rng"] == "sim":
            return jax.random.wrap_key_data(jnp.asarray(raw), impl=core.sim_key(0).dtype._impl.name if False else _impl())
        return jnp.asarray(raw)
    return core.make_key(j["seed"], j["rng"])


def _impl():
    import jax
    from sim import core
    return jax.random.key_impl(core.sim_key(0))


def build(j):
    """(sampler, initial positions, data) of a job; nothing is shared between two builds."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from sim import core, world as W
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.logPDF import TemperedPDF
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.strategy.optimization import AdamOptimization
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
    from flowMC.strategy.train_model import TrainModel
    from flowMC.strategy.update_state import UpdateState
    C, d, n, L = j["C"], j["d"], j["n"], j["loops"]
    g = np.random.default_rng(j["target"])
    m = g.normal(size=d).astype(np.float32)
    w = np.exp(0.5 * g.normal(size=d)).astype(np.float32)
    data = {"mean": jnp.asarray(m), "obs": jnp.asarray(g.normal(size=3), jnp.float32), "scale": jnp.asarray(1.0 + g.random(), jnp.float32)}
    calls = [0]

    def logpdf(x, dd):
        if j["fail"] == "density":
            calls[0] += 1
            if calls[0] > j["fail_at"]:
                raise core.Injected("density")
        return -0.5 * jnp.sum(w * (x - dd["mean"]) ** 2) * dd["scale"] + 0.1 * jnp.sum(jnp.sin(x[0] + dd["obs"]))

    def prior(x, dd):
        return -0.01 * jnp.sum(x**2)
    pos = jnp.asarray(g.normal(size=(C, d)) + m, jnp.float32)
    key = job_key(j)
    if j["type"] == "bundle":
        scn = dict(pt=j["pt"], n_chains=C, n_dims=d, n_local=n, n_global=n, train=1, prod=1, epochs=1, n_temps=2, n_tempered=1, seed=j["seed"] << 16,
                   n_max=8, train_batch=8, batch=j["batch"])
        b = make_bundle(scn, logpdf, logprior=prior if j["pt"] else None, key=jax.random.PRNGKey(j["seed"]) if j["rng"] != "sim" else core.sim_key(j["seed"]))
        return Sampler(d, C, key, resource_strategy_bundles=b), pos, data
    room = 2 * n * L + 4 if j["fail"] != "overflow" else max(1, n)
    names = {"P": "P", "Lp": "Lp", "A": "A"}
    res = {"st": W.State({**names, "training": True}, name="st"), "logpdf": W.LogPDF(logpdf, n_dims=d)}
    for b, sh in (("P", (C, room, d)), ("Lp", (C, room)), ("A", (C, room)), ("loss", (4 * L,))):
        res[b] = W.Buffer(b, sh, 1 if len(sh) > 1 else 0)
    res["k"] = {"grw": lambda: GaussianRandomWalk(j["step"]), "mala": lambda: MALA(j["step"]), "hmc": lambda: HMC(1.0, j["step"], 2)}[j["kernel"]]()
    st, order = {}, []
    st["steps"] = TakeSerialSteps("logpdf", "k" if j["fail"] != "missing" else "nothing", "st", ["P", "Lp", "A"], n, thinning=min(j["thin"], n), chain_batch_size=j["batch"])
    st["mark"] = UpdateState("st", ["loops"], [L])
    st["off"] = UpdateState("st", ["training"], [False])
    one = ["steps"]
    if j["target"] % 2:      # somebody repositions the stepper before each call, as the bundles do
        at = [0]
        kept = n // min(j["thin"], n)

        def place(k, r, p, dd):
            st["steps"].set_current_position(at[0])
            at[0] += kept
        st["place"] = Lambda(place)
        one = ["place", "steps"]
    if j["type"] == "pt":
        res["tl"] = TemperedPDF(W.LogPDF(logpdf, n_dims=d), prior, n_dims=d)
        res["tp"] = W.Buffer("tp", (C, 2, d), 2)
        res["tp"].update_buffer(jnp.repeat(pos[:, None], 2, axis=1) + 0.5)
        res["temps"] = W.Buffer("temps", (3,), 0)
        res["temps"].update_buffer(jnp.asarray([1.0, 2.0, 5.0]))
        st["pt"] = ParallelTempering(1, "tl", "k" if j["fail"] != "missing" else "nothing", ["tp", "temps"], "st")
        one = ["pt"] + (one if n > 1 else [])
    elif j["type"] == "adam":
        lim = float(0.2 + 5.0 * g.random())
        st["adam"] = AdamOptimization(logpdf, n_steps=n + 2, learning_rate=float(0.05 + 0.3 * g.random()),
                                      noise_level=float(2.0 * g.random()), bounds=jnp.asarray([[-lim, lim]]))
        one = ["adam"]
    elif j["type"] == "train":
        flow = W.TinyFlow(d, g.normal(size=d), 0.1 * g.normal(size=d))
        res["model"] = flow
        res["nf"] = NFProposal(flow, n_NFproposal_batch_size=2)
        res["opt"] = Optimizer(flow, learning_rate=0.05)
        st["train"] = TrainModel("model", "P", "opt", loss_buffer_name="loss", n_epochs=2, batch_size=4, n_max_examples=8, history_window=3)
        st["group"] = TakeGroupSteps("logpdf", "nf", "st", ["P", "Lp", "A"], n)

        def use(k, r, p, dd):
            r["nf"] = NFProposal(r["model"], n_NFproposal_batch_size=2)
            st["group"].set_current_position(st["steps"].current_position)
        st["use"] = Lambda(use)
        st["back"] = Lambda(lambda k, r, p, dd: st["steps"].set_current_position(st["group"].current_position))
        one = ["steps", "train", "use", "group", "back"]
    for _ in range(L):
        order += one
    order += ["mark", "off"] + (["pt"] if j["type"] == "pt" else [])
    if j["fail"] == "unknown":
        order.insert(min(j["fail_at"], len(order)), "no such strategy")
    return Sampler(d, C, key, resources=res, strategies=st, strategy_order=order), pos, data


def play(j, hook=None, built=None):
    """Run a job. Returns everything it produced, as hashes where large, and its raw positions."""
    import numpy as np
    from sim import core, threads, world as W
    smp, pos, data = built or build(j)
    trail = []

    def before(name, *a):
        threads.yp(("before", name))
        if hook is not None:
            hook(len(trail))

    def after(name, args, out):
        trail.append((name, core.fingerprint(out[0]), core.fingerprint(out[2])))
        threads.yp(("after", name))
    W.spy_all(smp, before, after)
    end = "finished"
    try:
        smp.sample(pos, data)
    except Exception as e:
        if j["fail"] == "":
            raise Violation("unexpected-exception", f"a {j['type']} job raised {type(e).__name__}: {str(e)[:200]}") from e
        end = f"{type(e).__name__}: {str(e)[:120]}"
    snap = W.snap_resources(smp.resources)
    parts = {k: core.fingerprint(v) for k, v in snap.items() if k not in ("logpdf", "tl")}
    prog = {k: getattr(s.inner, "current_position", None) for k, s in smp.strategies.items()}
    raw = {k: np.array(r.data) for k, r in smp.resources.items() if isinstance(r, W.Buffer) and r.data.ndim >= 2}
    return dict(trail=trail, end=end, parts=parts, progress=prog, data=core.fingerprint(data), pos=core.fingerprint(pos)), raw


def compare(what, a, b):
    for f in ("end", "trail", "parts", "progress", "data", "pos"):
        if a[f] != b[f]:
            if f == "trail":
                k = next((k for k, (x, y) in enumerate(zip(a[f], b[f])) if x != y), min(len(a[f]), len(b[f])))
                d = f"first difference at strategy call {k}: {a[f][k:k + 1]} against {b[f][k:k + 1]}"
            elif isinstance(a[f], dict):
                d = f"differing: {sorted(k for k in set(a[f]) | set(b[f]) if a[f].get(k) != b[f].get(k))}"
            else:
                d = f"{a[f]!r} against {b[f]!r}"
            raise Violation("not-reproduced", f"{what}: {f} differs from the run alone; {d}")


class Seams:
    """Yield points inside flowMC, and the process-wide entropy sources set to known values."""

    def __init__(self, entropy, threads):
        self.entropy, self.threads = entropy, threads

    def __enter__(self):
        import random
        import time
        import jax
        import numpy as np
        from sim import threads as T, world as W
        from flowMC.resource.model.nf_model.base import NFModel
        self.saved = [(time, "time", time.time), (time, "time_ns", time.time_ns)]
        self.rand = (random.getstate(), np.random.get_state())
        random.seed(self.entropy)
        np.random.seed(self.entropy)
        time.time = lambda: 1e9 + self.entropy
        time.time_ns = lambda: int(1e18) + self.entropy
        if self.threads:
            for obj, name in ((jax.random, "split"), (W.Buffer, "update_buffer"), (W.State, "update"), (NFModel, "train_epoch")):
                real = getattr(obj, name)
                self.saved.append((obj, name, real))

                def wrapped(*a, _real=real, _name=name, **kw):
                    T.yp((_name, "in"))
                    out = _real(*a, **kw)
                    T.yp((_name, "out"))
                    return out
                setattr(obj, name, wrapped)
        return self

    def __exit__(self, *e):
        import random
        import numpy as np
        for obj, name, f in reversed(self.saved):
            setattr(obj, name, f)
        random.setstate(self.rand[0])
        np.random.set_state(self.rand[1])
        return False


def run(scn, ctx):
    import gc
    import numpy as np
    from sim import core, threads
    jobs = scn["jobs"]
    first = jobs[0]
    if core.REPLICA:     # the process that repeats the run has seen a sampler of the same shapes with another density before
        with Seams(5, False):
            play(dict(first, target=first["target"] + 2, seed=first["seed"] + 1, fail=""))
    with Seams(1, False):
        alone, raw = play(first)
    gc.collect()
    ctx.log("alone", alone)
    ctx.steps += len(alone["trail"])
    mode = scn["mode"]
    with Seams(scn["entropy"] + 2, mode == "threads"):
        if mode == "threads":
            s = threads.Sched(scn["sched"], scn["sticky"])
            for k, j in enumerate(jobs):
                s.add(f"j{k}", lambda j=j: play(j)[0])
            results = s.run()
            for st, v in results:
                if st == "raised":
                    raise v
            got = results[0][1]
            outs = [v for _, v in results[1:]]
            ctx.state(*s.switches)
            ctx.log("switches", len(s.switches), derive(*s.switches) & 0xFFFFFFFF)
            ctx.probes["task switches"] += len(s.switches)
        else:
            outs = []
            if mode == "before":
                for j in jobs[1:]:
                    outs.append(play(j)[0])
                    gc.collect()
                got = play(first)[0]
            elif mode == "nested":
                todo = list(jobs[1:])

                def hook(k):
                    if todo and (k >= 1 or len(alone["trail"]) <= 1):
                        outs.append(play(todo.pop(0))[0])
                        gc.collect()
                got = play(first, hook)[0]
            else:                          # others are built before and run after
                mine = build(first)
                built = [build(j) for j in jobs[1:]]
                outs = [play(j, built=b)[0] for j, b in list(zip(jobs[1:], built))[:1]]
                got = play(first, built=mine)[0]
                del built
            ctx.state(mode, *[o["end"] for o in outs])
    compare(f"{first['type']} job ({mode} with {[j['type'] + ('/' + j['fail'] if j['fail'] else '') for j in jobs[1:]]})", alone, got)
    for o in outs:
        ctx.log("other", o)
        ctx.steps += len(o["trail"])
        ctx.faults["another sampler failed"] += o["end"] != "finished"
    ctx.faults["other clock and global random state"] += 1
    ctx.probes[f"mode {mode}"] += 1
    if scn["other_seed"] and first["type"] in ("steps", "train", "pt") and not first["fail"] and first["kernel"] == "grw" or (scn["other_seed"] and first["type"] == "bundle"):
        # another seed: no walker may take the same steps
        w0 = [(first["seed"] * 2654435761) & 0xFFFFFFFF, first["seed"]]
        w1 = {"one": [w0[0], w0[1] ^ 1], "high": [w0[0] ^ 1, w0[1]], "far": [w0[0] ^ 0xDEADBEEF, w0[1] ^ 0x12345]}[scn["other_seed"]]
        ja, jb = (dict(first, words=w) for w in (w0, w1))
        (ra, xa), (rb, xb) = play(ja), play(jb)
        for k in xa:
            if xa[k].ndim < 3:
                continue
            same = (xa[k] == xb[k]) & np.isfinite(xa[k])
            moved = np.isfinite(xa[k]) & (np.diff(xa[k], axis=1, prepend=np.nan) != 0) & (np.diff(xb[k], axis=1, prepend=np.nan) != 0)
            moved[:, 0] = np.isfinite(xa[k][:, 0]) & False
            if (same & moved).sum() > 0.2 * max(4, moved.sum()):
                raise Violation("seed-ignored", f"seeds {w0} and {w1} give the same {k}: {int((same & moved).sum())} of {int(moved.sum())} moved coordinates agree")
        if ra["trail"] and any(a[1] == b[1] for a, b in zip(ra["trail"], rb["trail"])):
            raise Violation("seed-ignored", f"seeds {w0} and {w1} lead to the same key after {ra['trail'][0][0]}")
        ctx.probes["seeds compared"] += 1
