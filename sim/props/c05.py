"""C05: adaptation feeds training and stops in production."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 72, "thorough": 3000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "strategy calls of the bundles"
RULE = ("A run builds one of the two bundles from random settings, replaces its local kernel and flow by revealing ones in most "
        "runs (a kernel that always moves, a flow whose every proposal is its trained mean), optionally makes training fail "
        "(non-finite losses), and watches every strategy call. Before each flow step the flow in use is compared with the result "
        "of the latest training, and the recorded proposals with its mean; from the start of production on everything that "
        "shapes the transition kernel is compared bitwise while all walkers must move. Non-trivial: production took place. "
        "Distinct: different event logs.")
STATE_MEASURE = "(bundle, loops, temperatures, flow, training fault, phase) combinations reached"
REAL = ["Sampler", "RQSpline_MALA_Bundle", "RQSpline_MALA_PT_Bundle", "TakeSerialSteps", "TakeGroupSteps", "TrainModel", "NFProposal",
        "ParallelTempering", "UpdateState", "Lambda", "Optimizer", "MALA and MaskedCouplingRQSpline in part of the runs"]
STUB = ["local kernel that always moves", "flow proposing its trained mean (trained by the real NFModel code)"]
ASSUMPTIONS = ["production starts when the state's training flag is cleared"]


def gen(r, i, tier):
    pt = r.random() < 0.6
    n_local, thin_l = r.choice([(1, 1), (2, 1), (3, 1), (3, 2), (4, 4), (5, 2)])
    n_global, thin_g = r.choice([(1, 1), (2, 1), (3, 1), (3, 2), (2, 2)])
    return dict(pt=pt, n_chains=r.choice([1, 2, 3, 6]), n_dims=r.choice([1, 2, 3]), n_local=n_local, thin_l=thin_l, n_global=n_global,
                thin_g=thin_g, train=r.choice([0, 1, 2, 2, 3]), prod=r.choice([1, 2, 2, 3]), epochs=r.choice([1, 2, 3]),
                n_temps=r.choice([2, 3, 3, 4]), n_tempered=r.choice([-1, 1, 2]), batch=r.choice([0, 2]), n_max=r.choice([8, 20]),
                train_batch=r.choice([4, 64]), lr=r.choice([0.01, 0.3]), window=r.choice([1, 5, 100]), max_temp=r.choice([3.0, 20.0]),
                nf_batch=r.choice([1, 2, 100]), flow=r.choice(["echo", "echo", "echo", "echo", "spline"]),
                kernel=r.choice(["walk", "walk", "mala"]), fault=r.choice(["", "", "", "loss", "loss1"]), prior=r.random() < 0.5,
                rng=r.choice(["sim", "sim", "threefry"]))


def shrinks(scn):
    from sim.world import shrink_int, set_path
    for f, lo in (("train", 0), ("prod", 1), ("n_chains", 1), ("n_dims", 1), ("epochs", 1), ("n_temps", 2)):
        yield from shrink_int(scn, [f], lo)
    if scn["fault"]:
        yield set_path(scn, ["fault"], "")


SHAPING = ["model", "optimizer", "loss_buffer", "temperatures", "local_sampler", "global_sampler"]


def settings(strategies):
    """Plain settings of the strategies, except how far they have come."""
    from sim.world import settings as own
    out = {}
    for k, s in strategies.items():
        s = getattr(s, "inner", s)
        out[k] = {a: v for a, v in own(s).items() if a != "current_position" and isinstance(v, (int, float, str, bool, list, tuple))}
    return out


def run(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    from flowMC.resource.optimizer import Optimizer
    from flowMC.resource.kernel.NF_proposal import NFProposal
    C, d = scn["n_chains"], scn["n_dims"]
    n_train = [0]
    flat = scn["kernel"] == "walk" or scn["flow"] == "echo"
    like = (lambda x, data: 0.0 * jnp.sum(x) + data["c"]) if flat else (lambda x, data: -0.5 * jnp.sum((x - data["c"]) ** 2))
    prior = (lambda x, data: -1e-6 * jnp.sum(x**2)) if scn["prior"] and scn["pt"] else None
    with sut("bundle construction"):
        b = make_bundle(scn, like, logprior=prior)
    res = b.resources

    class Echo(W.TinyFlow):
        """Every proposal is the mean; nearly flat density so that proposals are accepted."""

        def log_prob(self, x):
            lp = -1e-3 * jnp.sum((x - self.mu) ** 2)
            if scn["fault"] == "loss":
                return lp + jnp.nan
            if scn["fault"] == "loss1":       # fails once the mean has moved
                return jnp.where(jnp.abs(self.mu[0]) > 1.5 * scn["lr"], jnp.nan, lp)
            return lp

        def sample(self, rng_key, n_samples):
            return jnp.repeat(self.mu[None], n_samples, axis=0)

    class Walk(W._Unsaved, W.ProposalBase):
        step: jax.Array = None

        def __init__(self):
            self.step = jnp.asarray(1.0)

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            position = position + self.step
            return position, logpdf(position, data), jnp.asarray(True)

    if scn["kernel"] == "walk":
        res["local_sampler"] = Walk()
    if scn["flow"] == "echo":
        m = Echo(d)
        res["model"] = m
        res["global_sampler"] = NFProposal(m, n_NFproposal_batch_size=scn["nf_batch"])
        res["optimizer"] = Optimizer(m, learning_rate=scn["lr"])
    smp = Sampler(d, C, core.make_key(scn["seed"], scn["rng"]), resource_strategy_bundles=b)
    st = dict(phase="training", trained=None, frozen=None, settings=None, trainings=0, loops=0, locals=0, globals=0, losses=0, pts=0)
    model_prints = [W.snap_resources({"m": res["model"]})["m"]]
    st["trained"] = model_prints[0]
    st["mu"] = np.array(res["model"].mu) if scn["flow"] == "echo" else None
    hot0 = {}

    def shaping(resources):
        return W.snap_resources({k: resources[k] for k in SHAPING if k in resources})

    def before(name, key, resources, pos, data):
        if name == "global_stepper":
            used = W.snap_resources({"m": resources["global_sampler"].model})["m"]
            if not W.same(used, st["trained"]):
                raise Violation("stale-flow", f"{st['phase']}: flow step {st['globals']} uses a flow that is not the result of training "
                                f"{st['trainings']}")
        if name == "parallel_tempering":
            hot0["x"] = np.concatenate([np.array(pos)[:, None], np.array(resources["tempered_positions"].data)], axis=1)
            hot0["temps"] = np.array(resources["temperatures"].data)

    def after(name, args, out):
        resources, start, end = out[1], np.array(args[2]), np.array(out[2])
        what = f"{st['phase']} loop, strategy {name}"
        ctx.steps += 1
        if name == "model_trainer":
            if st["phase"] == "production":
                raise Violation("training-in-production", f"the model was trained after production started")
            st["trainings"] += 1
            new = W.snap_resources({"m": resources["model"]})["m"]
            st["trained"] = new
            if scn["flow"] == "echo":
                st["mu"] = np.array(resources["model"].mu)
            lb = np.array(resources["loss_buffer"].data)
            n = st["trainings"] * scn["epochs"]
            if resources["loss_buffer"].cursor != n or not (lb[n:] == -np.inf).all() or (lb[:n] == -np.inf).any():
                raise Violation("losses-not-recorded", f"after {st['trainings']} trainings of {scn['epochs']} epochs the record is {lb.tolist()}")
            call = lb[n - scn["epochs"]:n]
            if W.same(new, model_prints[-1]) and np.isfinite(call).all() and not scn["fault"]:
                raise Violation("training-without-effect", f"training {st['trainings']} with losses {call.tolist()} left the model as it was")
            ctx.probes["training failed (model kept)"] += W.same(new, model_prints[-1])
            model_prints.append(new)
        if name == "local_stepper":
            st["locals"] += 1
            if scn["kernel"] == "walk" and not np.allclose(end - start, scn["n_local"], atol=1e-3):
                raise Violation("walkers-stuck", f"{what}: chains moved by {(end - start).tolist()}, not {scn['n_local']} steps")
        if name == "global_stepper":
            st["globals"] += 1
            ph = st["phase"]
            if scn["flow"] == "echo":
                acc = np.array(resources[f"global_accs_{ph}"].data)
                P = np.array(resources[f"positions_{ph}"].data)
                last = smp.strategies["global_stepper"].inner.current_position
                rec = slice(last - scn["n_global"] // scn["thin_g"], last)
                hit = acc[:, rec] == 1
                bad = hit & ~(P[:, rec] == st["mu"]).all(-1)
                if bad.any():
                    c, q = np.argwhere(bad)[0]
                    raise Violation("stale-flow", f"{what}: chain {c} accepted proposal {P[c, rec][q].tolist()}, the flow trained last "
                                    f"({st['trainings']} trainings) proposes {st['mu'].tolist()}")
                ctx.probes[f"{ph}: proposals seen to come from the trained flow"] += int(hit.sum())
        if name == "parallel_tempering":
            st["pts"] += 1
            x1 = np.concatenate([end[:, None], np.array(resources["tempered_positions"].data)], axis=1)
            n = scn["n_tempered"] if scn["n_tempered"] > 0 else scn["n_local"]
            if scn["kernel"] == "walk":
                a = np.sort(hot0["x"][:, :, 0] + n, axis=1)
                z = np.sort(x1[:, :, 0], axis=1)
                if not np.allclose(a, z, atol=1e-2):
                    raise Violation("walkers-stuck", f"{what}: tempered walkers of the chains went from {hot0['x'][:, :, 0].tolist()} to "
                                    f"{x1[:, :, 0].tolist()}, {n} steps each are due")
            elif np.array_equal(hot0["x"], x1) and n * C * scn["n_temps"] > 40:
                raise Violation("walkers-stuck", f"{what}: no walker moved in {n} tempered steps")
            ctx.probes[f"{st['phase']}: tempering calls"] += 1
        if st["frozen"] is not None:
            now = shaping(resources)
            diff = W.diff_resources(st["frozen"], now)
            if diff:
                raise Violation("production-adapts", f"{what} changed {', '.join(diff)} after production started")
            if settings(smp.strategies) != st["settings"]:
                a, z = st["settings"], settings(smp.strategies)
                raise Violation("production-adapts", f"{what} changed the settings of {[k for k in z if z[k] != a.get(k)]}")
            ctx.probes["production: frozen state compared"] += 1
        flag = resources["sampler_state"].data.get("training")
        if st["phase"] == "training" and flag is False:
            st["phase"] = "production"
            st["frozen"] = shaping(resources)
            st["settings"] = settings(smp.strategies)
            if st["trainings"] != scn["train"]:
                raise Violation("wrong-training-count", f"production starts after {st['trainings']} trainings, {scn['train']} loops asked for")
            if st["locals"] != scn["train"] or st["globals"] != scn["train"]:
                raise Violation("wrong-training-count", f"production starts after {st['locals']} local and {st['globals']} flow phases, "
                                f"{scn['train']} loops asked for")
        ctx.log(name, end, flag)
        ctx.state(scn["pt"], scn["flow"], scn["kernel"], scn["fault"], st["phase"], name, st["trainings"])

    W.spy_all(smp, before=before, after=after)
    g = np.random.default_rng(scn["seed"])
    with sut("Sampler.sample with a bundle"):
        smp.sample(jnp.asarray(0.3 * g.normal(size=(C, d)), core.flt()), {"c": jnp.asarray(0.5)})
    if st["phase"] != "production":
        raise Violation("no-production", "the run ended without entering production")
    if st["globals"] != scn["train"] + scn["prod"] or st["locals"] != scn["train"] + scn["prod"]:
        raise Violation("wrong-training-count", f"{st['locals']} local and {st['globals']} flow phases in all, asked for {scn['train']} + {scn['prod']}")
    if scn["fault"]:
        ctx.faults["training loss non-finite: " + scn["fault"]] += 1
