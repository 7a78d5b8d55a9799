"""C09: saved resources survive crashes and reload exactly."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

from sim import core
from sim.core import Violation, from_repo

LEVEL = "fault-injection"
RUNS = {"quick": 400, "thorough": 12000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "save, load, change and restart operations"
RULE = ("A run keeps several buffers, states, spline flows, RealNVPs and flow-matching models alive over a simulated disk, "
        "changes, trains, saves, loads and restarts in a random history, and strikes saves and loads with a crash, a full "
        "disk, a torn or failed write, an error or lost tail at close, failing opens, reads, short reads and allocations at "
        "a chosen byte. Non-trivial: at least one save. Distinct: different event logs.")
STATE_MEASURE = "(resource kind, operation, fault, outcome, position class of the fault) combinations reached"
REAL = ["Buffer/State/NFModel/FlowMatchingModel save and load", "numpy and equinox serialisation", "zipfile", "NFModel.train",
        "the file system below the seam"]
STUB = ["open/os.replace/os.remove for the scratch directory (the simulated disk)"]
ASSUMPTIONS = ["an interrupted write leaves a prefix of the bytes written, in order (no block reordering)",
               "a template has the architecture of the saved model"]

KINDS = ["buffer", "buffer", "state", "state", "rqs", "nvp", "fm"]
SAVE_FAULTS = ["crash", "crash", "enospc", "eio-write", "memory-write", "eio-close", "lost-tail", "open-eacces", "open-emfile"]
LOAD_FAULTS = ["eio-read", "short-read", "memory-read", "open-eacces", "open-emfile"]
NAMES = ["positions", "a", "b.1", "x y", "größe", "v1.npz", "n" * 60, "a-b_c", "data"]


def gen(r, i, tier):
    slots = []
    n = r.randint(1, 4)
    for s in range(n):
        kind = r.choice(KINDS) if s else KINDS[i % len(KINDS)]
        slots.append(dict(kind=kind, name=r.choice(NAMES), dir=r.choice(["d1/", "d1/", "d2/pre_", "d3.x/"]),
                          shape=[r.choice([1, 2, 3, 5]) for _ in range(r.randint(1, 3))], d=r.choice([1, 2, 2, 3]) if kind != "fm" else r.choice([1, 2]),
                          spec=r.randrange(3)))
    ops = []
    for _ in range(r.randint(4, 16)):
        s = r.randrange(n)
        c = r.random()
        if c < 0.25:
            ops.append(["change", s, r.randrange(1 << 30)])
        elif c < 0.29:
            ops.append(["train", s, r.randrange(1 << 30)])
        elif c < 0.60:
            f = r.choice(SAVE_FAULTS) if r.random() < 0.5 else None
            ops.append(["save", s, f, pos(r)])
        elif c < 0.92:
            f = r.choice(LOAD_FAULTS) if r.random() < 0.3 else None
            ops.append(["load", s, f, pos(r), r.randrange(1 << 20), r.random() < 0.5])
        else:
            ops.append(["restart"])
    ops.append(["load", r.randrange(n), None, 0, r.randrange(1 << 20), True])
    return dict(slots=slots, ops=ops, fresh=(i % 48 == 5), behave=r.random() < 0.35)


def pos(r):
    return r.choice(["first", "last", r.random(), r.random(), r.random(), "last-k", "boundary"]) if r.random() < 0.8 else r.random()


def shrinks(scn):
    from sim.world import shrink_list
    yield from shrink_list(scn, "ops", 1)
    k = len(scn["slots"]) - 1
    if k > 0 and all(len(o) < 2 or o[1] != k for o in scn["ops"]):
        yield {**scn, "slots": scn["slots"][:-1]}
    for j, o in enumerate(scn["ops"]):
        if o[0] in ("save", "load") and o[2]:
            ops = [list(x) for x in scn["ops"]]
            ops[j][2] = None
            yield {**scn, "ops": ops}
    if scn["fresh"]:
        yield {**scn, "fresh": False}
    if scn["behave"]:
        yield {**scn, "behave": False}


# ------------------------------------------------------------------ resources
def build(slot, seed):
    """A resource of the slot's kind and architecture, initialised by seed."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from sim import world as W
    g = np.random.default_rng(seed)
    k, d = slot["kind"], slot["d"]
    if k == "buffer":
        b = W.Buffer(slot["name"], tuple(slot["shape"]), slot["spec"] % len(slot["shape"]))
        return b
    if k == "state":
        return W.State({}, name=slot["name"])
    key = jax.random.PRNGKey(seed & 0xFFFFF)
    mean = jnp.asarray(g.normal(size=d), core.flt())
    a = g.normal(size=(d, d))
    cov = jnp.asarray(a @ a.T + np.eye(d), core.flt())
    if k == "rqs":
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        r = [3.0, 5.0, 8.0][seed % 3]
        return MaskedCouplingRQSpline(d, 2, [3], 2, key, (-r, r), data_mean=mean, data_cov=cov)
    if k == "nvp":
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        return RealNVP(d, 2, 3, key, data_mean=mean, data_cov=cov)
    from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
    from flowMC.resource.model.common import MLP
    return FlowMatchingModel(Solver(MLP([d + 1, 3, d], key, scale=0.3)), PATH(), data_mean=mean, data_cov=cov)


def other_look(slot, seed):
    """The slot of a template: a buffer or state can be loaded into one of another name and shape."""
    if slot["kind"] not in ("buffer", "state") or seed % 3 == 0:
        return slot
    return dict(slot, name=NAMES[seed % len(NAMES)], shape=[1 + (seed >> 4) % 3] * (1 + (seed >> 8) % 3), spec=seed >> 10)


_path = []


def PATH():
    from flowMC.resource.model.flowmatching.base import CondOTScheduler, Path
    if not _path:
        _path.append(Path(CondOTScheduler()))
    return _path[0]


SPECIAL = [float("nan"), -0.0, float("inf"), -float("inf"), 1e-45, 3.4e38, -1.5]
TEXTS = ["", "x", "Größe ☃", 'q"uo\\te', "a\nb\x00", "{}", "True", "1"]
INTS = [0, 1, -1, 2**31, 2**63, -(10**30), 7]


def change(res, slot, seed):
    import jax
    import jax.numpy as jnp
    import numpy as np
    g = np.random.default_rng(seed)
    if slot["kind"] == "buffer":
        dim = res.cursor_dim
        size = res.data.shape[dim]
        n = int(g.integers(1, size + 1))
        sh = list(res.data.shape)
        sh[dim] = n
        v = g.normal(size=sh).astype(core.flt())
        for _ in range(int(g.integers(0, 3))):
            v.flat[int(g.integers(v.size))] = SPECIAL[int(g.integers(len(SPECIAL)))]
        start = int(g.integers(0, size - n + 1))
        res.update_buffer(jnp.asarray(v), start)
        res.cursor = start + n
        return res
    if slot["kind"] == "state":
        for _ in range(int(g.integers(1, 4))):
            v = [INTS[int(g.integers(len(INTS)))], bool(g.integers(2)), TEXTS[int(g.integers(len(TEXTS)))]][int(g.integers(3))]
            res.update([["n", "training", "ключ", "a b", ""][int(g.integers(5))]], [v])
        return res
    leaves, tree = jax.tree_util.tree_flatten(res)
    out = []
    for x in leaves:
        if isinstance(x, jax.Array) and x.dtype == core.flt() and g.random() < 0.6:
            v = np.array(x)
            v = v + g.normal(size=v.shape).astype(core.flt()) * 0.1
            if v.size and g.random() < 0.1:
                v.flat[0] = SPECIAL[int(g.integers(len(SPECIAL)))]
            x = jnp.asarray(v.astype(core.flt()))
        elif isinstance(x, float) and not isinstance(x, bool) and g.random() < 0.2 and abs(x) >= 1:
            x = [2.5, 4.0, 6.0][int(g.integers(3))] * (1 if x > 0 else -1)
        out.append(x)
    return jax.tree_util.tree_unflatten(tree, out)


_optim = []


def train(res, slot, seed):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import optax
    import equinox as eqx
    if not _optim:
        _optim.append(optax.adam(1e-2))
    g = np.random.default_rng(seed)
    x = jnp.asarray(g.normal(size=(12, slot["d"])) * 2 + 1, core.flt())
    st = _optim[0].init(eqx.filter(res, eqx.is_array))
    key = jax.random.PRNGKey(seed & 0xFFFF)
    if slot["kind"] == "fm":
        x0 = jnp.asarray(g.normal(size=(12, slot["d"])), core.flt())
        t = jnp.asarray(g.random((12, 1)), core.flt())
        return res.train(key, (x0, x, t), _optim[0], st, 1, 12, False)[1]
    return res.train(key, x, _optim[0], st, 1, 12, False)[1]


def value(res):
    """Everything observable of a resource, bit for bit."""
    import jax
    import numpy as np
    if hasattr(res, "update_buffer"):
        a = np.asarray(res.data)
        return ("buffer", str(res.name), isinstance(res.name, str), str(a.dtype), a.shape, a.tobytes(), int(res.cursor), int(res.cursor_dim))
    if isinstance(getattr(res, "data", None), dict):
        return ("state", str(res.name), isinstance(res.name, str), [(k, type(v).__name__, v) for k, v in res.data.items()])
    leaves, tree = jax.tree_util.tree_flatten(res)
    out = []
    for x in leaves:
        if isinstance(x, (jax.Array, np.ndarray)):
            a = np.asarray(x)
            out.append((type(x).__name__, str(a.dtype), a.shape, a.tobytes()))
        elif isinstance(x, (bool, int, float)):
            out.append((type(x).__name__, repr(x)))
        else:
            out.append(type(x).__name__)
    return (type(res).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(tree)), out)


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


_behave = {}


def behaviour(res, slot):
    """What a flow does: its density at points and the samples it draws."""
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    import numpy as np
    k = (slot["kind"], slot["d"])
    if k not in _behave:
        _behave[k] = eqx.filter_jit(lambda m, x, key: (jax.vmap(m.log_prob)(x), m.sample(key, 3)))
    x = jnp.linspace(-2, 3, 4 * slot["d"]).reshape(4, slot["d"])
    a, b = _behave[k](res, x, jax.random.PRNGKey(5))
    return np.asarray(a).tobytes() + np.asarray(b).tobytes()


def stem(root, slot):
    if slot["kind"] in ("buffer", "state"):
        return os.path.join(root, slot["dir"])
    return os.path.join(root, slot["dir"] + slot["name"])


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[p] = h.read()
    return out


def place(p, total, journal):
    if total <= 0:
        return 0
    if p == "first":
        return 0
    if p == "last":
        return total - 1
    if p == "last-k":
        return max(0, total - 22)      # inside the last record of an archive's directory
    if p == "boundary":
        cuts = [0]
        for n in journal:
            cuts.append(cuts[-1] + n)
        return cuts[len(cuts) // 2]
    return int(p * total)


def run(scn, ctx):
    root = tempfile.mkdtemp(prefix="c09_", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        _run(scn, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, ctx, root):
    from sim.disk import Disk, Plan, SimCrash
    disk_dir, shadow = os.path.join(root, "disk"), os.path.join(root, "shadow")
    for b in (disk_dir, shadow):
        for d in ("d1", "d2", "d3.x"):
            os.makedirs(os.path.join(b, d))
    disk = Disk(root)
    slots = scn["slots"]
    live = [build(s, scn["seed"] + q) for q, s in enumerate(slots)]
    ident = [(s["kind"] in ("buffer", "state"), s["dir"], s["name"]) for s in slots]
    known = {}      # file identity -> dict(path, values attempted, clean: value that must load or None)

    def rec(q):
        # two buffers/states with one name and directory share a file, and so do two flows with one stem
        return known.setdefault(ident[q], dict(path=None, values=[], clean=None, kinds=[]))

    for j, op in enumerate(scn["ops"]):
        kind = op[0]
        ctx.steps += 1
        if kind == "restart":
            live = [build(s, scn["seed"] + 100 * (j + 1) + q) for q, s in enumerate(slots)]
            ctx.faults["process restart"] += 1
            ctx.log(j, "restart")
            continue
        q = op[1]
        slot = slots[q]
        k = slot["kind"]
        if kind == "change":
            live[q] = change(live[q], slot, op[2])
            ctx.log(j, "change", q)
            continue
        if kind == "train":
            if k in ("rqs", "nvp", "fm"):
                live[q] = train(live[q], slot, op[2])
                ctx.probes["trained before saving"] += 1
            ctx.log(j, "train", q)
            continue
        before_live = [value(x) for x in live]
        before_files = files(disk_dir)
        r = rec(q)
        if kind == "save":
            fault, p = op[2], op[3]
            at = 0
            if fault:
                with disk.operation(Plan()) as pl:      # how much this save writes
                    live[q].save_resource(stem(shadow, slot))
                at = place(p, pl.done, disk.journal)
                if fault == "enospc":
                    size = max([os.path.getsize(f) for f in disk.touched] + [1])
                    at = min(at, size - 1)
            want = before_live[q]
            plan = Plan(None if fault in (None, "lost-tail") else fault, at)
            out = "saved"
            with disk.operation(plan):
                try:
                    live[q].save_resource(stem(disk_dir, slot))
                except SimCrash:
                    out = "crashed"
                except Exception as e:
                    out = "raised"
                    if not plan.fired:
                        raise Violation("save-failed", f"op {j}: saving {k} {slot['name']!r} failed without any fault: "
                                        f"{type(e).__name__}: {str(e)[:200]}") from e
            after = files(disk_dir)
            changed = sorted(f for f in set(after) | set(before_files) if after.get(f) != before_files.get(f))
            extra = [f for f in changed if f != r["path"]]
            if r["path"] is None and extra:
                new = [f for f in extra if f not in before_files]
                if len(new) == 1 or (new and out != "saved"):
                    r["path"] = new[0]
                    extra.remove(new[0])
            stray = [f for f in extra if f in before_files]
            if stray:
                raise Violation("other-file-touched", f"op {j}: saving {k} {slot['name']!r} changed {[os.path.relpath(f, disk_dir) for f in stray]}")
            if out == "saved" and extra:
                raise Violation("stray-file", f"op {j}: saving {k} {slot['name']!r} left {[os.path.relpath(f, disk_dir) for f in extra]}")
            if out == "saved" and r["path"] is None:
                raise Violation("nothing-saved", f"op {j}: saving {k} {slot['name']!r} returned but no file appeared")
            r["values"].append(want)
            r["kinds"].append((k, slot["d"]))
            r["clean"] = want if out == "saved" and not plan.fired else None
            if fault == "lost-tail" and out == "saved" and r["path"] in after:
                n = len(after[r["path"]])
                os.truncate(r["path"], min(n - 1, place(p, n, [])))
                r["clean"] = None
                out = "lost tail"
                plan.fired = True
            if fault and plan.fired:
                ctx.faults[fault] += 1
            if out == "crashed":
                live = [build(s, scn["seed"] + 100 * (j + 1) + z) for z, s in enumerate(slots)]
            else:
                for z, x in enumerate(live):
                    if value(x) != before_live[z]:
                        raise Violation("live-resource-changed", f"op {j}: saving {k} {slot['name']!r} ({out}) changed live resource {z} "
                                        f"({slots[z]['kind']})")
            ctx.state(k, "save", fault, out, p if isinstance(p, str) else int(p * 4))
            ctx.log(j, "save", q, fault, out, at)
        else:
            fault, p, tseed, keep = op[2:]
            if r["path"] is None:
                ctx.log(j, "load", q, "nothing saved")
                continue
            if r["kinds"] and (k, slot["d"]) not in r["kinds"][-1:]:
                # the file holds another kind of resource: only "raises or ..." can be asked
                clean, foreign = None, True
            else:
                clean, foreign = r["clean"], False
            plan = Plan(fault, place(p, len(before_files.get(r["path"], b"")), []) if fault else 0)
            template = build(other_look(slot, tseed), tseed)
            before_t = value(template)
            out, got = "loaded", None
            with disk.operation(plan):
                try:
                    got = template.load_resource(r["path"] if k in ("buffer", "state") else stem(disk_dir, slot))
                except SimCrash:
                    raise AssertionError("crash in load")
                except BaseException as e:
                    if not isinstance(e, Exception):
                        raise
                    out = "raised"
                    if clean is not None and not plan.fired:
                        raise Violation("load-failed", f"op {j}: {k} {slot['name']!r} was saved without error but loading it failed: "
                                        f"{type(e).__name__}: {str(e)[:300]}") from e
            if plan.fired:
                ctx.faults[fault] += 1
            if files(disk_dir) != before_files:
                raise Violation("load-wrote", f"op {j}: loading {k} {slot['name']!r} changed files")
            if value(template) != before_t and out == "raised":
                raise Violation("template-changed", f"op {j}: a failed load of {k} {slot['name']!r} changed the resource it was called on")
            for z, x in enumerate(live):
                if value(x) != before_live[z]:
                    raise Violation("live-resource-changed", f"op {j}: loading {k} {slot['name']!r} changed live resource {z}")
            if out == "loaded":
                v = value(got)
                if clean is not None and v != clean:
                    raise Violation("loaded-differs", f"op {j}: {k} {slot['name']!r} was saved as {short(clean)} and loaded as {short(v)}"
                                    + (f" while {fault} struck" if plan.fired else ""))
                if clean is None and v not in r["values"] and not (foreign and v[0] not in [w[0] for w in r["values"]]):
                    raise Violation("partial-resource", f"op {j}: loading {k} {slot['name']!r} after an interrupted save or failing read "
                                    f"({fault}) returned something never saved: {short(v)}")
                ctx.probes["reloads compared"] += 1
                ctx.probes["reload after a failed save gave a complete value"] += r["clean"] is None
                if scn["behave"] and k in ("rqs", "nvp", "fm") and clean is not None and live[q] is not None and before_live[q] == clean:
                    if behaviour(got, slot) != behaviour(live[q], slot):
                        raise Violation("behaviour-differs", f"op {j}: the reloaded {k} draws other samples or has another density")
                    ctx.probes["behaviour compared"] += 1
                if scn["fresh"] and clean is not None and not plan.fired and j == len(scn["ops"]) - 1:
                    fresh(scn, slot, r["path"] if k in ("buffer", "state") else stem(disk_dir, slot), tseed, clean)
                    ctx.probes["reloads in a fresh process"] += 1
                if keep and not foreign:
                    live[q] = got
                    if k == "buffer":      # the loaded buffer goes on like the saved one
                        for z, x in enumerate(live):
                            if z != q and x is got:
                                raise Violation("shared", "load returned an existing resource")
            else:
                ctx.probes["loads refused"] += 1
            ctx.state(k, "load", fault if plan.fired else None, out, r["clean"] is not None)
            ctx.log(j, "load", q, fault, out, r["clean"] is not None)


def fresh(scn, slot, path, tseed, want):
    """Load in a process that shares nothing with this one."""
    import hashlib
    import json
    code = ("import sys, json; sys.path.insert(0, sys.argv[4]); from sim import core; core.setup_jax(); from sim.props import c09; "
            "slot, path, seed = json.loads(sys.argv[1]), sys.argv[2], int(sys.argv[3])\n"
            "with core.quiet():\n v = c09.value(c09.build(c09.other_look(slot, seed), seed).load_resource(path))\n"
            "import hashlib; print('FP', hashlib.sha256(repr(v).encode()).hexdigest())")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    r = subprocess.run([sys.executable, "-c", code, json.dumps(slot), path, str(tseed), root], cwd=root,
                       capture_output=True, text=True, timeout=300)
    fp = [x.split()[1] for x in r.stdout.splitlines() if x.startswith("FP ")]
    if not fp:
        raise Violation("fresh-load-failed", f"loading {slot['kind']} in a fresh process failed: {r.stderr[-400:]}")
    if fp[0] != hashlib.sha256(repr(want).encode()).hexdigest():
        raise Violation("fresh-load-differs", f"{slot['kind']} loads differently in a fresh process")
