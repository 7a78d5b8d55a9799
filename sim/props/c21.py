"""C21: a run resumed from saved resources goes on as if it had not stopped."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

from sim import core
from sim.core import Violation, sut

LEVEL = "fault-injection"
RUNS = {"quick": 64, "thorough": 1500}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "strategy calls of the bundles, lost and repeated ones included"
RULE = ("A run executes a bundle and writes checkpoints of every resource that can be saved (buffers, state, flow) between strategies "
        "over a simulated disk; the process crashes at a chosen byte of the last checkpoint or after it. A new bundle, built from "
        "another key, loads the newest checkpoint that loads completely, executes the remaining strategies (in part of the runs in "
        "a fresh process) and must end with the records, flow, ladder and walkers of the run that never stopped. Non-trivial: a "
        "resumed run was compared. Distinct: different event logs.")
STATE_MEASURE = "(bundle, flow, kernel, strategy boundary, disk fault, checkpoint used, process) combinations reached"
REAL = ["Sampler", "both bundles", "save and load of Buffer, State and NFModel", "all strategies of the bundles", "MALA",
        "MaskedCouplingRQSpline in part of the runs", "the file system below the seam"]
STUB = ["open/os.replace/os.remove for the scratch directory (the simulated disk)", "in part of the runs a diagonal Gaussian flow"]
ASSUMPTIONS = ["the caller keeps the key, the positions and how far each stepper is; the optimizer has no saved form and is handed on in memory"]


def gen(r, i, tier):
    n_local, thin_l = r.choice([(1, 1), (2, 1), (3, 1), (4, 2)])
    n_global, thin_g = r.choice([(1, 1), (2, 1), (3, 1), (4, 2)])
    fault = r.choice([None, None, "crash", "crash", "eio-write", "enospc"])
    marks = [r.choice([0.0, r.random(), r.random(), r.random()]) for _ in range(r.choice([1, 2, 2]))]
    if fault:       # something complete to fall back to
        marks = [0.9 * m for m in marks] + [0.99]
    fresh = i % 22 == 3
    if fresh:
        fault, marks = None, [r.uniform(0.75, 0.99)]
    return dict(pt=r.random() < 0.7, n_chains=r.choice([1, 2, 3, 5]), n_dims=r.choice([1, 2, 3]), n_local=n_local, thin_l=thin_l,
                n_global=n_global, thin_g=thin_g, train=r.choice([0, 1, 2, 3]) if not fresh else 1, prod=r.choice([1, 2, 3]) if not fresh else 3, epochs=r.choice([1, 2]),
                n_temps=r.choice([2, 3, 3, 4]), n_tempered=r.choice([-1, 1, 2]), batch=r.choice([0, 2]), n_max=r.choice([8, 20]),
                train_batch=r.choice([4, 64]), lr=r.choice([0.01, 0.1]), window=r.choice([2, 100]), max_temp=r.choice([3.0, 20.0]),
                nf_batch=r.choice([1, 2, 100]), flow=r.choice(["tiny", "tiny", "spline"]), kernel=r.choice(["mala", "mala", "count"]),
                step=r.choice([0.1, 0.5]), prior=r.random() < 0.5, rng=r.choice(["sim", "threefry"]),
                marks=marks, fault=fault, at=r.random(), fresh=fresh)


def shrinks(scn):
    from sim.world import shrink_int, shrink_list, set_path
    yield from shrink_list(scn, "marks", 1)
    for f, lo in (("train", 0), ("prod", 1), ("n_chains", 1), ("n_dims", 1), ("n_temps", 2)):
        yield from shrink_int(scn, [f], lo)
    for f, v in (("fault", None), ("fresh", False), ("flow", "tiny"), ("kernel", "count")):
        if scn[f] != v:
            yield set_path(scn, [f], v)


def make(scn, salt):
    """A sampler with a freshly built bundle, whose flow starts from a key of its own."""
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    from flowMC.resource.optimizer import Optimizer
    from flowMC.resource.kernel.NF_proposal import NFProposal
    like = lambda x, data: -0.5 * jnp.sum((x - data["c"]) ** 2)
    prior = (lambda x, data: -0.05 * jnp.sum(x**2)) if scn["prior"] and scn["pt"] else None
    with sut("bundle construction"):
        b = make_bundle(scn, like, logprior=prior, key=jax.random.PRNGKey(salt))
    d = scn["n_dims"]
    if scn["flow"] == "tiny":
        m = W.TinyFlow(d, mu=0.1 * (salt % 7) + jnp.zeros(d), log_sigma=0.05 * (salt % 5) + jnp.zeros(d))
        b.resources["model"] = m
        b.resources["global_sampler"] = NFProposal(m, n_NFproposal_batch_size=scn["nf_batch"])
        b.resources["optimizer"] = Optimizer(m, learning_rate=scn["lr"])
    if scn["kernel"] == "count":
        b.resources["local_sampler"] = W.CounterKernel()
    return Sampler(d, scn["n_chains"], core.make_key(scn["seed"], scn["rng"]), resource_strategy_bundles=b)


def saveable(resources):
    from sim import world as W
    return [k for k, r in resources.items() if isinstance(r, (W.Buffer, W.State, W.NFModel))]


def save(resources, root):
    for k in saveable(resources):
        d = os.path.join(root, k)
        os.makedirs(d, exist_ok=True)
        resources[k].save_resource(os.path.join(d, "m") if k == "model" else d + "/")


def load(resources, root):
    """The loaded resources by name; raises if one is missing or does not load."""
    out = {}
    for k in saveable(resources):
        d = os.path.join(root, k)
        if k == "model":
            out[k] = resources[k].load_resource(os.path.join(d, "m"))
        else:
            (path,) = glob.glob(os.path.join(glob.escape(d), "*"))
            out[k] = resources[k].load_resource(path)
    return out


def steppers(strategies):
    return {k: int(getattr(s, "inner", s).current_position) for k, s in strategies.items()
            if hasattr(getattr(s, "inner", s), "set_current_position")}


def final(smp, pos, key):
    from sim import world as W
    out = W.snap_resources({k: r for k, r in smp.resources.items() if k in saveable(smp.resources) or k == "optimizer"})
    out["(final positions)"] = W.snap(pos)
    out["(flow of the proposals)"] = W.snap_resources({"m": smp.resources["global_sampler"].model})["m"]
    out["(steppers)"] = steppers(smp.strategies)
    import jax
    out["(key)"] = W.snap(jax.random.key_data(key))
    return out


def resume(scn, where, mark, salt):
    """Build everything anew, load the checkpoint, execute what is left."""
    import jax.numpy as jnp
    import numpy as np
    from sim import world as W
    smp = make(scn, salt)
    with sut("loading a complete checkpoint"):
        smp.resources.update(load(smp.resources, where))
    if mark["optim"] is not None:
        smp.resources["optimizer"].optim_state = mark["optim"]
    pos = jnp.asarray(mark["pos"])
    key = mark["key"]
    with sut("resuming"):
        smp.strategies["update_model"](key, smp.resources, pos, DATA())
        for k, v in mark["steppers"].items():
            smp.strategies[k].set_current_position(v)
        smp.rng_key = key
        smp.strategy_order = smp.strategy_order[mark["k"]:]
        last = [pos, key]

        def after(name, args, out):
            last[0], last[1] = out[2], out[0]
        W.spy_all(smp, after=after)
        smp.sample(pos, DATA())
    return final(smp, np.array(last[0]), last[1])


def DATA():
    import jax.numpy as jnp
    return {"c": jnp.asarray(0.5)}


def run(scn, ctx):
    root = tempfile.mkdtemp(prefix="c21_", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        _run(scn, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, ctx, root):
    import jax
    import numpy as np
    import jax.numpy as jnp
    from sim import world as W
    from sim.disk import Disk, Plan, SimCrash
    C, d = scn["n_chains"], scn["n_dims"]
    smp = make(scn, 1)
    N = len(smp.strategy_order)
    at = sorted({int(m * N) for m in scn["marks"]})
    disk = Disk(root)
    marks = []
    n = [0]

    def checkpoint(key, resources, pos):
        k = n[0]
        if k not in at:
            return
        mark = dict(k=k, key=key, pos=np.array(pos), steppers=steppers(smp.strategies), ok=True,
                    optim=resources["optimizer"].optim_state if "model_trainer" in smp.strategy_order[k:] else None)
        where = os.path.join(root, f"g{k}")
        plan = Plan()
        if scn["fault"] and k == at[-1]:
            with disk.operation(Plan()) as dry:
                save(resources, os.path.join(root, "dry"))
            plan = Plan(scn["fault"], int(scn["at"] * dry.done))
            if scn["fault"] == "enospc":      # the disk is full for files above some size
                plan.at = int(scn["at"] * 600) + 1
        before = W.snap_resources({q: resources[q] for q in saveable(resources)})
        with disk.operation(plan):
            try:
                save(resources, where)
            except SimCrash:
                mark["ok"] = False
            except Exception:
                mark["ok"] = False
                if not plan.fired:
                    raise
        if plan.fired:
            ctx.faults["checkpoint: " + scn["fault"]] += 1
        diff = W.diff_resources(before, W.snap_resources({q: resources[q] for q in saveable(resources)}))
        if diff:
            raise Violation("saving-changes-run", f"saving {', '.join(diff)} at boundary {k} changed them")
        marks.append(mark)

    def before(name, key, resources, pos, data):
        checkpoint(key, resources, pos)

    last = [None, None]

    def after(name, args, out):
        n[0] += 1
        last[0], last[1] = out[2], out[0]
        ctx.steps += 1

    W.spy_all(smp, before=before, after=after)
    g = np.random.default_rng(scn["seed"])
    x0 = jnp.asarray(g.normal(size=(C, d)), core.flt())
    names = list(smp.strategy_order)
    with sut("Sampler.sample with a bundle"):
        smp.sample(x0, DATA())
    want = final(smp, np.array(last[0]), last[1])
    # --- crash: only the disk (and what the caller kept) survives
    ctx.faults["process crash and restart"] += 1
    for q in reversed(range(len(marks))):
        mark = marks[q]
        where = os.path.join(root, f"g{mark['k']}")
        if not mark["ok"]:
            try:
                load(make(scn, 3).resources, where)
            except Exception:
                ctx.probes["incomplete checkpoint refused"] += 1
                continue
            ctx.probes["checkpoint complete although saving failed"] += 1
        if scn["fresh"] and mark["optim"] is None:
            got = elsewhere(scn, where, mark, want)
            ctx.probes["resumed in a fresh process"] += 1
        else:
            got = resume(scn, where, mark, 2)
        ctx.steps += N - mark["k"]
        if mark["optim"] is None:       # it did not survive, and nothing after training needs it
            got["optimizer"] = want["optimizer"]
        diff = W.diff_resources(want, got)
        if diff:
            raise Violation("resume-differs", f"resumed before strategy {mark['k']} of {N} ({names[mark['k']]}), the run ends with other "
                            f"{', '.join(diff)} than the run that never stopped" + detail(want, got, diff))
        ctx.probes["resumed runs compared"] += 1
        ctx.probes["resumed before: " + names[mark["k"]]] += 1
        ctx.state(scn["pt"], scn["flow"], scn["kernel"], names[mark["k"]], scn["fault"], q, scn["fresh"])
        ctx.log(mark["k"], names[mark["k"]], scn["fault"], sorted(got))
        break
    ctx.log(want["(final positions)"])


def detail(want, got, diff):
    import numpy as np
    for k in diff:
        a, z = want.get(k), got.get(k)
        if isinstance(a, tuple) and a and a[0] == "buffer" and isinstance(z, tuple) and a[2].shape == z[2].shape:
            w = np.argwhere(~((a[2] == z[2]) | (np.isnan(a[2]) & np.isnan(z[2]))))
            if len(w):
                return f"; {k} at {w[0].tolist()} is {z[2][tuple(w[0])]}, not {a[2][tuple(w[0])]}"
    return ""


def elsewhere(scn, where, mark, want):
    """Resume in a process that shares nothing with this one."""
    import pickle
    import jax
    typed = jax.dtypes.issubdtype(mark["key"].dtype, jax.dtypes.prng_key)
    job = dict(scn=scn, where=where, k=mark["k"], pos=mark["pos"], steppers=mark["steppers"], typed=typed, x64=core.X64,
               key=jax.device_get(jax.random.key_data(mark["key"]) if typed else mark["key"]))
    path, out = where + ".job", where + ".out"
    with open(path, "wb") as f:
        pickle.dump(job, f)
    code = ("import sys, pickle; sys.path.insert(0, sys.argv[3]); from sim import core\n"
            "job = pickle.load(open(sys.argv[1], 'rb')); core.setup_jax(job['x64'])\n"
            "import jax, jax.numpy as jnp; from sim.props import c21\n"
            "key = jnp.asarray(job['key'])\n"
            "if job['typed']:\n"
            " key = jax.random.wrap_key_data(key, impl=jax.random.key_impl(core.make_key(0, job['scn']['rng'])))\n"
            "m = dict(k=job['k'], pos=job['pos'], steppers=job['steppers'], key=key, optim=None)\n"
            "with core.quiet():\n"
            " try:\n  r = ('ok', c21.resume(job['scn'], job['where'], m, 5))\n"
            " except core.Violation as e:\n  r = ('violation', e.kind, e.msg)\n"
            "pickle.dump(r, open(sys.argv[2], 'wb'))")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-c", code, path, out, root], cwd=root, capture_output=True, text=True, timeout=400)
    if not os.path.exists(out):
        raise Violation("resume-failed", f"resuming in a fresh process failed: {r.stderr[-400:]}")
    with open(out, "rb") as f:
        got = pickle.load(f)
    if got[0] == "violation":
        raise Violation(got[1], "in a fresh process: " + got[2])
    return got[1]
