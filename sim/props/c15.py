"""C15: the sampler runs exactly the listed strategies in order."""
from sim.core import Violation, Injected, sut

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "strategy calls"
RULE = ("A run draws a set of strategies (recorders that pass on new keys, resources and positions, Lambdas, state updates, "
        "real steppers), a random order list with repetitions, unknown names and injected failures, or a bundle's own order "
        "with its strategies replaced by recorders, executes Sampler.sample once or twice and compares every call with the "
        "list. Non-trivial: at least one strategy ran. Distinct: different event logs.")
STATE_MEASURE = "(length of the executed prefix, kinds executed, how the run ended) combinations reached"
REAL = ["Sampler", "Lambda", "UpdateState", "TakeSerialSteps in part of the runs", "both bundles' strategy orders"]
STUB = ["recorder strategies", "the bundle's strategies are replaced by recorders in the order check"]
ASSUMPTIONS = []


def gen(r, i, tier):
    if r.random() < 0.12:
        return dict(type="bundle", pt=r.random() < 0.5, n_chains=2, n_dims=2, n_local=2, n_global=2,
                    train=r.choice([0, 1, 2, 5]), prod=r.choice([0, 1, 3]), epochs=1, n_temps=2, n_tempered=1)
    kinds = [r.choice(["rec", "rec", "rec", "same", "lambda", "lambda_ret", "update", "take", "newdict"]) for _ in range(r.randint(1, 5))]
    order = [r.randrange(len(kinds)) for _ in range(r.randint(0, 10))]
    bad = r.choice(["none", "none", "unknown", "raise", "near", "resource"])
    return dict(type="plain", kinds=kinds, order=order, bad=bad, bad_at=r.randint(0, len(order)), again=r.random() < 0.4,
                n_chains=r.choice([1, 2, 3]), d=r.choice([1, 2]), flat=r.random() < 0.3, via=r.choice(["args", "bundle"]),
                fresh=r.random() < 0.6, key=r.choice(["legacy", "typed"]), data=r.choice(["dict", "empty", "nested", "none"]))


def shrinks(scn):
    from sim.world import shrink_list, set_path
    if scn["type"] == "bundle":
        for f in ("train", "prod"):
            if scn[f]:
                yield {**scn, f: scn[f] - 1}
        return
    for c in shrink_list(scn, "order", 0):
        yield {**c, "bad_at": min(c["bad_at"], len(c["order"]))}
    if scn["again"]:
        yield set_path(scn, ["again"], False)


def run(scn, ctx):
    if scn["type"] == "bundle":
        return run_bundle(scn, ctx)
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import core, world as W
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.strategy.update_state import UpdateState
    from flowMC.strategy.take_steps import TakeSerialSteps
    C, d = scn["n_chains"], scn["d"]
    log = []
    data = {"dict": {"a": jnp.arange(3.0), "b": 2}, "empty": {}, "nested": {"x": {"y": [jnp.ones(2), 7]}}, "none": {"n": None}}[scn["data"]]

    class Rec(Strategy):
        def __init__(self, name, kind):
            self.name, self.kind = name, kind

        def __call__(self, rng_key, resources, initial_position, data):
            key = jax.random.fold_in(rng_key, len(log))
            pos = initial_position + 1.0
            if self.kind == "raise":
                log.append((self.name, rng_key, resources, initial_position, data, None))
                raise Injected(self.name)
            if self.kind == "same":
                out = (rng_key, resources, initial_position)
            elif self.kind == "newdict":
                out = (key, dict(resources), pos)
            else:
                resources["count"].update(["n"], [resources["count"].data["n"] + 1])
                out = (key, resources, pos)
            log.append((self.name, rng_key, resources, initial_position, data, out))
            return out

    class Wrap(Strategy):
        """Around a real strategy."""

        def __init__(self, name, inner):
            self.name, self.inner = name, inner

        def __call__(self, rng_key, resources, initial_position, data):
            out = self.inner(rng_key, resources, initial_position, data)
            log.append((self.name, rng_key, resources, initial_position, data, out))
            return out

    res = {"count": W.State({"n": 0}, name="count"), "st": W.State({**{k: k for k in "PLA"}}, name="st"),
           "logpdf": W.LogPDF(lambda x, data: -x[0], n_dims=d), "k": W.CounterKernel()}
    for b, sh in (("P", (C, 60, d)), ("L", (C, 60)), ("A", (C, 60))):
        res[b] = W.Buffer(b, sh, 1)
    strategies, calls = {}, []
    for k, kind in enumerate(scn["kinds"]):
        n = f"s{k}"
        if kind == "lambda":
            o = Wrap(n, Lambda(lambda key, r, p, dd, n=n: calls.append((n, key, r, p, dd))))
        elif kind == "lambda_ret":
            o = Wrap(n, Lambda(lambda key, r, p, dd, n=n: (calls.append((n, key, r, p, dd)), (jnp.zeros(2), {}, p - 9))[1]))
        elif kind == "update":
            o = Wrap(n, UpdateState("st", ["mark", "flag"], [k, True]))
        elif kind == "take":
            o = Wrap(n, TakeSerialSteps("logpdf", "k", "st", ["P", "L", "A"], 2))
        else:
            o = Rec(n, kind)
        strategies[n] = o
    strategies["never"] = Rec("never", "rec")
    strategies["boom"] = Rec("boom", "raise")
    order = [f"s{k}" for k in scn["order"]]
    at = scn["bad_at"]
    if scn["bad"] == "unknown":
        order.insert(at, "no such strategy")
    elif scn["bad"] == "near":
        order.insert(at, ["s0 ", "S0", "s", "", "s00", "NEVER", "Rec", "TakeSerialSteps"][scn["seed"] % 8])
    elif scn["bad"] == "resource":     # a name of something else
        order.insert(at, ["st", "k", "P", "logpdf"][scn["seed"] % 4])
    elif scn["bad"] == "raise":
        order.insert(at, "boom")
    key = jax.random.PRNGKey(scn["seed"] & 0xFFFF)
    if scn["key"] == "typed":
        key = core.make_key(scn["seed"], "sim")
    x0 = jnp.arange(float(C * d)).reshape(C, d)
    if scn["flat"]:
        x0 = x0[:1]
    if core.flag(scn, "odd", 3):       # whatever the positions are, they are handed on
        x0 = x0.at[0, 0].set([jnp.nan, jnp.inf, -jnp.inf, 1e30][scn["seed"] % 4])
        ctx.probes["positions that are no ordinary numbers"] += 1
    x0_in = x0[0] if scn["flat"] else x0
    from flowMC.resource_strategy_bundle.base import ResourceStrategyBundle
    listed = list(order)
    if scn["via"] == "args":
        smp = Sampler(d, C, key, resources=res, strategies=strategies, strategy_order=order)
    else:
        class B(ResourceStrategyBundle):
            def __init__(self):
                self.resources, self.strategies, self.strategy_order = res, strategies, order
        smp = Sampler(d, C, key, resource_strategy_bundles=B())
    fp = core.fingerprint(data)
    for rnd in range(2 if scn["again"] else 1):
        log.clear()
        calls.clear()
        if rnd and scn["fresh"]:   # other data and other positions than in the first run
            data = {k: v for k, v in list(data.items())[::-1]}
            data["fresh"] = jnp.asarray(3.0)
            x0, x0_in, fp = x0 + 0.5, x0_in + 0.5, core.fingerprint(data)
            ctx.probes["other data in the second sample()"] += 1
        res_before = smp.resources
        for s in strategies.values():
            if hasattr(s, "inner") and isinstance(s.inner, TakeSerialSteps):
                s.inner.set_current_position(0)
        err = None
        try:
            smp.sample(x0_in, data)
        except (Injected, ValueError) as e:
            if isinstance(e, ValueError) and scn["bad"] in ("none", "raise"):
                if core.from_repo(e):
                    raise Violation("unexpected-exception", f"sample() with order {listed}: {e}") from e
                raise
            err = e
        except Exception as e:
            if core.from_repo(e):
                raise Violation("unexpected-exception", f"sample() with order {listed} ({scn['bad']} at {at}): "
                                f"{type(e).__name__}: {e}") from e
            raise
        ran = [e[0] for e in log]
        want = listed
        if scn["bad"] == "raise":
            want = listed[:at + 1]
            if not isinstance(err, Injected):
                raise Violation("failure-swallowed", f"the strategy at {at} raised, sample() returned normally")
        elif scn["bad"] in ("unknown", "near", "resource"):
            want = listed[:at]
            if err is None:
                raise Violation("unknown-accepted", f"order {listed} names an unknown strategy at {at}, sample() did not raise")
        if ran != want:
            raise Violation("wrong-order", f"order {listed} ({scn['bad']} at {at}), executed {ran}")
        prev = (key, res_before, x0)
        nl = 0
        for j, (n, k, rs, p, dd, out) in enumerate(log):
            if not same_key(k, prev[0]):
                raise Violation("key-not-threaded", f"call {j} ({n}) of {listed} got another key than its predecessor returned")
            if rs is not prev[1]:
                raise Violation("resources-not-threaded", f"call {j} ({n}) of {listed} got other resources than its "
                                "predecessor returned")
            if not (np.array_equal(np.asarray(p), np.asarray(prev[2]), equal_nan=True) and p.shape == prev[2].shape):
                raise Violation("positions-not-threaded", f"call {j} ({n}) of {listed} started at {np.asarray(p).tolist()}, its "
                                f"predecessor returned {np.asarray(prev[2]).tolist()}")
            if core.fingerprint(dd) != fp or list(dd) != list(data):
                raise Violation("data-changed", f"call {j} ({n}) got changed data")
            if out is None:
                break
            kind = strategies[n].kind if isinstance(strategies[n], Rec) else scn["kinds"][int(n[1:])]
            if kind in ("lambda", "lambda_ret", "update"):
                if not (same_key(out[0], k) and out[1] is rs and np.array_equal(np.asarray(out[2]), np.asarray(p), equal_nan=True)):
                    raise Violation("not-passed-through", f"{kind} changed the key, resources or positions it was given")
                if kind != "update":
                    c = calls[nl] if nl < len(calls) else None
                    nl += 1
                    if c is None or c[0] != n or not same_key(c[1], k) or c[2] is not rs or c[3] is not p or c[4] is not dd:
                        raise Violation("lambda-arguments", f"the Lambda's function at call {j} did not get the strategy's arguments")
            prev = out
            ctx.steps += 1
        if nl != len(calls):
            raise Violation("lambda-called-again", f"{len(calls)} function calls for {nl} Lambda strategies")
        if smp.resources is not prev[1]:
            raise Violation("resources-not-kept", f"after {listed} ({scn['bad']} at {at}) the sampler does not hold the resources "
                            f"of the last completed strategy")
        if core.fingerprint(data) != fp:
            raise Violation("data-changed", "the caller's data changed")
        if list(order) != listed:
            raise Violation("order-changed", "sample() changed the order list")
        last_mark = [int(n[1:]) for n in ran if n in strategies and n[1:].isdigit() and scn["kinds"][int(n[1:])] == "update"]
        st = smp.resources["st"].data
        if last_mark and (st.get("mark") != last_mark[-1] or st.get("flag") is not True or st["P"] != "P"):
            raise Violation("state-not-updated", f"state {st} after updates {last_mark}")
        ctx.faults["unknown strategy name"] += scn["bad"] in ("unknown", "near", "resource")
        ctx.faults["strategy raises"] += scn["bad"] == "raise"
        ctx.probes["sample() called again"] += rnd
        ctx.state(len(ran), sorted(set(scn["kinds"])), scn["bad"], scn["via"])
        ctx.log(rnd, ran, np.asarray(prev[2]))


def same_key(a, b):
    import numpy as np
    import jax
    def raw(k):
        return np.asarray(jax.random.key_data(k) if jax.dtypes.issubdtype(k.dtype, jax.dtypes.prng_key) else k)
    return a.dtype == b.dtype and np.array_equal(raw(a), raw(b))


def run_bundle(scn, ctx):
    import jax
    import jax.numpy as jnp
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    with sut("bundle construction"):
        b = make_bundle(scn, lambda x, data: -jnp.sum(x**2))
    log = []

    class Rec(Strategy):
        def __init__(self, name):
            self.name = name

        def __call__(self, k, r, p, dd):
            log.append(self.name)
            return k, r, p

    listed = list(b.strategy_order)
    unknown = [n for n in listed if n not in b.strategies]
    if unknown:
        raise Violation("bundle-names-unknown", f"the bundle lists {unknown}, which it does not define")
    b.strategies = {n: Rec(n) for n in b.strategies}
    smp = Sampler(2, 2, jax.random.PRNGKey(0), resource_strategy_bundles=b)
    with sut("sample with a bundle"):
        smp.sample(jnp.zeros((2, 2)), {})
    if log != listed:
        raise Violation("wrong-order", f"bundle order {listed}, executed {log}")
    t, p = scn["train"], scn["prod"]
    n = {k: log.count(k) for k in b.strategies}
    want = dict(local_stepper=t + p, global_stepper=t + p, model_trainer=t)
    if scn["pt"]:
        want["parallel_tempering"] = t + p
    for k, v in want.items():
        if n.get(k) != v:
            raise Violation("wrong-loops", f"{t} training and {p} production loops: {k} runs {n.get(k)} times, order {listed}")
    ctx.steps += len(log)
    ctx.probes["bundle orders"] += 1
    ctx.state("bundle", scn["pt"], t, p)
    ctx.log(log)
