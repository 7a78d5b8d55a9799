"""C10: training keeps the best epoch and its books."""
import inspect

from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 10000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "training epochs"
RULE = ("Scripted runs: a flow whose losses and gradients follow a script (finite, NaN, +-inf, ties) and whose only parameter "
        "counts optimizer steps goes through several trainings by TrainModel (over recorded samples with non-finite cells), "
        "NFModel.train or FlowMatchingModel.train; the returned model, optimizer state, losses, books and examples are compared "
        "with a reference. Real runs: the flows and diagonal Gaussians train on hostile data and learning rates; the result of n "
        "epochs must be finite and equal the result of stopping at the best epoch. Non-trivial: at least one epoch ran.")
STATE_MEASURE = "(pattern of the losses, where the best epoch is, way of calling) combinations reached"
REAL = ["TrainModel", "NFModel.train / train_epoch / train_step", "FlowMatchingModel.train", "Optimizer", "Buffer",
        "MaskedCouplingRQSpline and RealNVP in part of the runs"]
STUB = ["the flow of the scripted runs", "flow-matching path and network of the scripted runs"]
ASSUMPTIONS = ["epochs with equal losses: either may be kept", "every sample of the window is taken to be used when 30 times as many "
               "examples are drawn"]


def gen(r, i, tier):
    k = r.random()
    if k < 0.17:
        kind = r.choice(["tiny", "tiny", "spline", "realnvp", "fm"])
        return dict(type="real", kind=kind, d=r.choice([1, 2, 3]) if kind != "realnvp" else 2, n=r.choice([1, 2, 7, 12]),
                    epochs=r.choice([2, 4, 7]), batch=r.choice([2, 5, 100]), lr=r.choice([1e-3, 0.05, 3.0, 1e4, 1e30]),
                    data=r.choice(["ok", "ok", "huge", "max", "same", "nan", "inf"]), g=r.randint(0, 10**6), calls=r.choice([1, 1, 2]))
    calls = []
    for _ in range(r.choice([1, 2, 2, 3])):
        e = r.choice([1, 2, 3, 5, 8])
        pat = r.choice(["down", "up", "rand", "rand", "bad", "ties"])
        fr = r.choice([0, 0, 0.2, 0.6])
        losses = []
        for j in range(e):
            v = {"down": 40 - 3 * j, "up": 3 * j - 5, "rand": r.randint(-60, 60), "bad": 1, "ties": r.choice([8, 9])}[pat] / 8
            if pat == "bad" or r.random() < fr:
                v = r.choice(["nan", "inf", "-inf"])
            if r.random() < 0.05:
                v = r.choice([3e9, 1e30])
            losses.append(v)
        grads = [r.choice(["nan", "inf"]) if r.random() < r.choice([0, 0, 0, 0.2]) else 1 for _ in range(e)]
        calls.append(dict(losses=losses, grads=grads))
    via = r.choice(["strategy", "strategy", "strategy", "direct", "fm"])
    C, n, d = r.choice([1, 2, 4]), r.choice([3, 6, 12]), r.choice([1, 2, 3])
    return dict(type="script", via=via, calls=calls, C=C, n=n, d=d, window=r.choice([1, 2, 4, 100]), batch=r.choice([3, 10, 10000]),
                steps=r.choice([1, 1, 2, 3]), pool_mult=r.choice([0, 30]), n_max=r.choice([6, 24]), g=r.randint(0, 10**6),
                holes=r.choice(["none", "tail", "scatter", "chain", "chain"]), hole=r.choice(["nan", "inf", "-inf"]),
                books=r.random() < 0.85, spare=r.choice([0, 3]), rng=r.choice(["sim", "threefry"]), verbose=r.random() < 0.1)


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    if scn["type"] == "real":
        for f in ("epochs", "calls", "n"):
            yield from shrink_int(scn, [f], 1)
        return
    yield from shrink_list(scn, "calls", 1)
    for j, c in enumerate(scn["calls"]):
        if len(c["losses"]) > 1:
            for cut in (slice(0, -1), slice(1, None)):
                yield set_path(scn, ["calls", j], dict(losses=c["losses"][cut], grads=c["grads"][cut]))
    if scn["holes"] != "none":
        yield set_path(scn, ["holes"], "none")
    for f in ("steps", "C", "d"):
        yield from shrink_int(scn, [f], 1)


def num(v):
    return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}.get(v, v)


def reference(calls, steps, fm):
    """What the counter should be after each call. Yields (losses, allowed (count, n_steps) pairs or 'original')."""
    import math
    count, opt = 0.0, 0
    base = 0
    for call in calls:
        losses, best = [], []
        c, s = count, opt
        for e in range(len(call["losses"])):
            val = None
            for q in range(steps):
                if not math.isfinite(c):
                    val = math.nan
                    g = math.nan
                else:
                    idx = int(round(c)) // steps
                    val = table_at(calls, idx, "losses")
                    g = table_at(calls, idx, "grads")
                    if fm and not math.isfinite(val):
                        g = math.nan
                c = c + g
                s += 1
            losses.append(val)
            best.append((val, c, s))
        ok = [(v, c_, s_) for v, c_, s_ in best if math.isfinite(v) and math.isfinite(c_)]
        if ok:
            lo = min(v for v, _, _ in ok)
            allowed = [(c_, s_) for v, c_, s_ in ok if v == lo]
        else:
            allowed = None
        yield losses, allowed
        if allowed:
            count, opt = allowed[0]


def table_at(calls, idx, what):
    t = [num(v) for c in calls for v in c[what]]
    return t[idx] if idx < len(t) else (1.0 if what == "losses" else 1.0)


def make_script(scn, captured):
    """A flow whose loss after k optimizer steps is entry k // steps of the script and whose count grows by the gradient."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from sim import world as W
    steps = scn["steps"]
    L = jnp.asarray([num(v) for c in scn["calls"] for v in c["losses"]] + [1.0], core.flt())
    G = jnp.asarray([num(v) for c in scn["calls"] for v in c["grads"]] + [1.0], core.flt())

    @jax.custom_jvp
    def script(count):
        i = jnp.clip(jnp.round(jnp.where(jnp.isfinite(count), count, 0)).astype(int) // steps, 0, len(L) - 1)
        return jnp.where(jnp.isfinite(count), L[i], jnp.nan)

    @script.defjvp
    def _(p, t):
        i = jnp.clip(jnp.round(jnp.where(jnp.isfinite(p[0]), p[0], 0)).astype(int) // steps, 0, len(L) - 1)
        return script(p[0]), -jnp.where(jnp.isfinite(p[0]), G[i], jnp.nan) * t[0]

    class Script(W.NFModel):
        count: jax.Array
        _n_features: int
        _data_mean: jax.Array
        _data_cov: jax.Array

        def __init__(self, d):
            self.count = jnp.asarray(0.0)
            self._n_features = d
            self._data_mean = jnp.full(d, 7.0)
            self._data_cov = jnp.eye(d) * 5

        def forward(self, x, key=None):
            return x, 0.0

        inverse = forward

        def log_prob(self, x):
            return -script(self.count)

        def sample(self, rng_key, n):
            return jnp.zeros((n, self._n_features))

        def print_parameters(self):
            pass

        def train(self, *args, **kw):
            b = inspect.signature(W.NFModel.train).bind(self, *args, **kw).arguments
            captured.append((np.array(b["data"]), b))
            return super().train(*args, **kw)
    return Script(scn["d"]), script


def counter_opt():
    """Plain gradient descent that counts its steps."""
    import optax
    return optax.chain(optax.scale_by_schedule(lambda c: -1.0))


def run(scn, ctx):
    if scn["type"] == "real":
        return run_real(scn, ctx)
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.train_model import TrainModel
    C, n, d, steps = scn["C"], scn["n"], scn["d"], scn["steps"]
    captured = []
    model, script = make_script(scn, captured)
    fm = scn["via"] == "fm"
    if fm:
        model = script_fm(scn, d)
    get = (lambda m: m.solver.model.count) if fm else (lambda m: m.count)
    opt = Optimizer(W.TinyFlow(1), 1e-3)
    opt.optim = counter_opt()
    import equinox as eqx
    opt.optim_state = opt.optim.init(eqx.filter(model, eqx.is_array))
    g = np.random.default_rng(scn["g"])
    key = core.make_key(scn["seed"], scn["rng"])
    total = sum(len(c["losses"]) for c in scn["calls"])
    book = W.Buffer("book", (total + scn["spare"],), 0)
    all_losses = []
    plain = np.asarray(g.normal(size=(C, n, d)), core.flt())
    plain = np.arange(C * n * d, dtype=core.flt()).reshape(C, n, d) + plain * 0.1      # every row is recognisable
    for j, (call, (want_losses, allowed)) in enumerate(zip(scn["calls"], reference(scn["calls"], steps, fm))):
        E = len(call["losses"])
        X = holes(scn, plain + 1000 * j, g)
        pool = []
        for c in range(C):
            ok = [tuple(row) for row in X[c] if np.isfinite(row).all()]
            pool += ok[-scn["window"]:]
        if not pool:
            return
        n_ex = max(scn["n_max"], steps) if scn["via"] != "strategy" or not scn["pool_mult"] else max(60, scn["pool_mult"] * len(pool))
        n_ex -= n_ex % steps
        batch = n_ex // steps if steps > 1 else scn["batch"]
        if steps == 1 and n_ex // batch > 1:
            batch = n_ex
        before = W.snap_resources({"m": model})["m"], W.snap_resources({"o": opt})["o"]
        what = f"call {j} via {scn['via']}: losses {call['losses']} gradients {call['grads']}"
        if scn["via"] == "strategy":
            buf = W.Buffer("X", X.shape, 1)
            buf.data = jnp.asarray(X)
            res = {"m": model, "X": buf, "o": opt, "book": book}
            st = TrainModel("m", "X", "o", loss_buffer_name="book" if scn["books"] else "", n_epochs=E, batch_size=batch,
                            n_max_examples=n_ex, history_window=scn["window"], verbose=scn["verbose"])
            pos = jnp.zeros((C, d))
            with sut("TrainModel"):
                key, res, out = st(key, res, pos, {})
            model, opt = res["m"], res["o"]
            ex, kw = captured[-1]
            got = {tuple(r) for r in ex}
            if not got <= set(pool):
                bad = next(r for r in got if r not in set(pool))
                raise Violation("foreign-example", f"{what}: trained on {bad}, which is not among the last {scn['window']} finite "
                                f"samples of a chain")
            if scn["pool_mult"] and got != set(pool):
                raise Violation("example-missing", f"{what}: {len(set(pool) - got)} of {len(pool)} window samples never used in "
                                f"{len(ex)} examples, e.g. {sorted(set(pool) - got)[0]}")
            if len(ex) != n_ex or kw.get("num_epochs", E) != E:
                raise Violation("wrong-training-size", f"{what}: {len(ex)} examples, {kw.get('num_epochs')} epochs; asked for {n_ex}, {E}")
            if np.asarray(buf.data).tobytes() != X.tobytes() or not np.array_equal(np.asarray(out), np.zeros((C, d))):
                raise Violation("training-changed-records", f"{what}: the recorded samples or positions changed")
            losses = None
            ctx.probes["examples checked"] += 1
        else:
            data = jnp.asarray(np.array(pool, core.flt())[g.integers(0, len(pool), n_ex)])
            if fm:
                data = (jnp.asarray(g.normal(size=(n_ex, d)), core.flt()), data + 0.01 * jnp.arange(n_ex)[:, None],
                        jnp.asarray(g.random((n_ex, 1)), core.flt()))
            with sut("train"):
                key, model, state, losses = model.train(key, data, opt.optim, opt.optim_state, E, batch, verbose=scn["verbose"])
            opt.optim_state = state
        all_losses += want_losses
        if losses is not None and not close(np.asarray(losses), want_losses):
            raise Violation("wrong-losses", f"{what}: returned losses {np.asarray(losses).tolist()}, should be {want_losses}")
        after = W.snap_resources({"m": model})["m"], W.snap_resources({"o": opt})["o"]
        cnt = float(get(model))
        nst = [int(v) for v in jax.tree_util.tree_leaves(opt.optim_state)]
        if allowed is None:
            if not W.same(before[0], after[0]) or not W.same(before[1], after[1]):
                raise Violation("not-original", f"{what}: no epoch had a finite loss and finite parameters, but the model or optimizer "
                                f"state changed (count {cnt}, steps {nst})")
            ctx.probes["no usable epoch"] += 1
        elif not any(abs(cnt - c_) < 1e-2 and nst == [s_] for c_, s_ in allowed):
            raise Violation("not-best-epoch", f"{what}: kept parameters after {cnt} steps and optimizer state after {nst}, the best epoch "
                            f"ends after {allowed} (losses {want_losses})")
        if scn["via"] == "strategy":
            want = np.full(book.data.shape, -np.inf, core.flt())
            cur = 0
            if scn["books"]:
                want[:len(all_losses)] = all_losses
                cur = len(all_losses)
            if not close(np.asarray(book.data), want) or book.cursor != cur:
                raise Violation("wrong-books", f"{what}: loss record {np.asarray(book.data).tolist()} cursor {book.cursor}, should be "
                                f"{want.tolist()} cursor {cur}")
        ctx.steps += E
        for v in call["losses"]:
            if isinstance(v, str):
                ctx.faults[f"loss {v}"] += 1
        for v in call["grads"]:
            if isinstance(v, str):
                ctx.faults[f"gradient {v}"] += 1
        if scn["holes"] != "none" and scn["via"] == "strategy":
            ctx.faults[f"non-finite records: {scn['holes']}"] += 1
        fin = [q for q, v in enumerate(want_losses) if np.isfinite(v)]
        ctx.probes["best epoch is not the last"] += bool(fin) and min(fin, key=lambda q: want_losses[q]) != E - 1
        ctx.state(scn["via"], [("f" if np.isfinite(v) else str(v)) for v in want_losses], cnt, steps)
        ctx.log(j, cnt, nst, [str(v) for v in want_losses])


def close(a, b):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.isclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True).all()


def holes(scn, X, g):
    import numpy as np
    X = X.copy()
    C, n, d = X.shape
    bad = core.flt()(num(scn["hole"]))
    if scn["holes"] == "tail":       # not yet filled, for all chains alike
        X[:, -max(1, n // 3):] = -np.inf
    elif scn["holes"] == "scatter":
        m = g.random((C, n)) < 0.4
        X[m, g.integers(0, d)] = bad
    elif scn["holes"] == "chain":    # one chain failed for a while
        a = g.integers(0, n)
        X[g.integers(0, C), a:a + 1 + g.integers(0, n)] = bad
    return X


def script_fm(scn, d):
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    steps = scn["steps"]
    # losses of flow matching are squares: use |v|
    for c in scn["calls"]:
        c["losses"] = [v if isinstance(v, str) and v != "-inf" else ("inf" if v == "-inf" else (abs(v) / 8 + 0.125) ** 2 if v < 1e8 else 1e20)
                       for v in c["losses"]]
    L = jnp.asarray([num(v) for c in scn["calls"] for v in c["losses"]] + [1.0], core.flt())
    G = jnp.asarray([num(v) for c in scn["calls"] for v in c["grads"]] + [1.0], core.flt())

    def idx(count):
        return jnp.clip(jnp.round(jnp.where(jnp.isfinite(count), count, 0)).astype(int) // steps, 0, len(L) - 1)

    @jax.custom_jvp
    def root(count):
        return jnp.where(jnp.isfinite(count), jnp.sqrt(L[idx(count)]), jnp.nan)

    @root.defjvp
    def _(p, t):
        y = root(p[0])
        return y, -jnp.where(jnp.isfinite(p[0]), G[idx(p[0])], jnp.nan) / (2 * y) * t[0]

    class Net(eqx.Module):
        count: jax.Array
        n_input: int
        n_output: int

        def __call__(self, x):
            return jnp.ones(self.n_output) * root(self.count)

    class StillPath(Path):
        def sample(self, x0, x1, t):
            return x0, jnp.zeros_like(x0)
    return FlowMatchingModel(Solver(Net(jnp.asarray(0.0), d + 1, d)), StillPath(CondOTScheduler()), jnp.full(d, 7.0), jnp.eye(d) * 5)


def run_real(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import equinox as eqx
    from sim import world as W
    from flowMC.resource.optimizer import Optimizer
    d, n = scn["d"], scn["n"]
    g = np.random.default_rng(scn["g"])
    key = jax.random.PRNGKey(scn["seed"] & 0xFFFFFF)
    k0 = jax.random.PRNGKey(scn["g"])
    if scn["kind"] == "tiny":
        m = W.TinyFlow(d)
    elif scn["kind"] == "spline":
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        m = MaskedCouplingRQSpline(d, 2, [3], 2, k0)
    elif scn["kind"] == "realnvp":
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        m = RealNVP(d, 2, 3, k0)
    else:
        from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
        from flowMC.resource.model.common import MLP
        m = FlowMatchingModel(Solver(MLP([d + 1, 4, d], k0, activation=jax.nn.tanh)), Path(CondOTScheduler()))
    opt = Optimizer(m, learning_rate=scn["lr"])
    state = opt.optim_state
    dkind = scn["data"]
    for j in range(scn["calls"]):
        X = g.normal(size=(n, d)).astype(core.flt()) * {"huge": 1e15, "max": 2e38}.get(dkind, 1.0)
        if dkind == "same":
            X[:] = X[0]
        if dkind in ("nan", "inf"):
            X[0, 0] = num(dkind)
        data = jnp.asarray(X)
        if scn["kind"] == "fm":
            data = (jnp.asarray(g.normal(size=(n, d)), core.flt()), data, jnp.asarray(g.random((n, 1)), core.flt()))

        def train(E):
            with sut("train"):
                return m.train(key, data, opt.optim, state, E, scn["batch"], verbose=False)
        what = f"{scn['kind']} d={d} n={n} data {dkind} lr {scn['lr']} batch {scn['batch']}, call {j}"
        _, m2, s2, losses = train(scn["epochs"])
        losses = np.asarray(losses)
        if losses.shape != (scn["epochs"],):
            raise Violation("wrong-losses", f"{what}: {losses.shape} losses for {scn['epochs']} epochs")
        leaves = [np.asarray(v) for v in jax.tree_util.tree_leaves(eqx.filter(m2, eqx.is_inexact_array))]
        if not all(np.isfinite(v).all() for v in leaves):
            raise Violation("model-poisoned", f"{what}: the returned model has non-finite parameters; losses {losses.tolist()}")
        if not all(np.isfinite(np.asarray(v)).all() for v in jax.tree_util.tree_leaves(s2)):
            raise Violation("optimizer-poisoned", f"{what}: the returned optimizer state is not finite; losses {losses.tolist()}")
        fin = np.where(np.isfinite(losses))[0]
        same0 = W.same(W.snap_resources({"m": m}), W.snap_resources({"m": m2}))
        if len(fin) == 0:
            if not same0:
                raise Violation("not-original", f"{what}: no finite loss {losses.tolist()}, but the model changed")
            ctx.probes["real: no finite loss"] += 1
        else:
            b = int(fin[np.argmin(losses[fin])])
            _, m3, s3, l3 = train(b + 1)
            if not W.same(np.asarray(l3), losses[:b + 1]):
                raise Violation("losses-not-repeatable", f"{what}: first {b + 1} epochs gave {losses[:b + 1].tolist()} and {np.asarray(l3).tolist()}")
            a1, a3 = W.snap_resources({"m": m2}), W.snap_resources({"m": m3})
            st = [[np.asarray(v) for v in jax.tree_util.tree_leaves(s)] for s in (s2, s3)]
            if not W.same(a1, a3) or not W.same(st[0], st[1]):
                raise Violation("not-best-epoch", f"{what}: training {scn['epochs']} epochs (losses {losses.tolist()}) does not return "
                                f"what training until its best epoch {b} returns")
            ctx.probes["real: best epoch is not the last"] += b < scn["epochs"] - 1
            ctx.probes["real: some losses not finite"] += len(fin) < len(losses)
            if not same0:
                ctx.probes["real: model changed"] += 1
        ctx.steps += scn["epochs"]
        ctx.log(what, [str(v) for v in losses])
        ctx.faults[f"training data {dkind}"] += dkind != "ok"
        ctx.state("real", scn["kind"], dkind, scn["lr"], len(fin))
        m, state = m2, s2
