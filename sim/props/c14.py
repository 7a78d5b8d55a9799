"""C14: optimisation respects bounds and reports true values."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 130, "thorough": 8000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "optimisation steps taken by the simulated chains"
RULE = ("A run draws an objective (quadratic, linear, log-cosh, multimodal; optionally failing in a region where some chains "
        "stand), bounds (none, shared, per dimension, one-sided, degenerate), starts inside, on and outside the box, step "
        "count, learning rate and noise, executes the real optimiser directly and as a strategy, and repeats it with one "
        "chain disturbed. Non-trivial: some chain moved. Distinct: different event logs.")
STATE_MEASURE = "(objective, bounds kind, noise, start class, whether a bound was active) combinations reached"
REAL = ["AdamOptimization", "optax", "Sampler in part of the runs"]
STUB = ["PRNG in part of the runs"]
ASSUMPTIONS = ["a chain whose own objective is undefined at a position it visits may return NaN (documented)",
               "at least one optimisation step is asked for"]


def gen(r, i, tier):
    d = r.choice([1, 2, 2, 3])
    C = r.choice([1, 2, 4, 6])
    if r.random() < 0.1:   # all chains from one place: only their own noise can tell them apart
        return dict(d=d, n_chains=6, obj=r.choice(["quad", "aniso"]), bounds="default", lo=0.0, width=1.0, n=r.choice([20, 60]),
                    lr=r.choice([0.01, 0.1]), noise=r.choice([1.0, 10.0]), spread=2.0, fault="", frate=0.2, same_start=True,
                    hurt=False, via=r.choice(["optimize", "call", "sampler"]), rng=r.choice(["sim", "threefry"]), progress=False)
    return dict(d=d, n_chains=C, obj=r.choice(["quad", "quad", "linear", "cosh", "multi", "aniso"]),
                bounds=r.choice(["default", "default", "shared", "shared", "per", "per", "lower", "upper", "point", "far"]),
                lo=r.uniform(-2, 0.5), width=r.choice([0.01, 1.0, 3.0]), n=r.choice([1, 2, 5, 20, 60, 150]),
                lr=r.choice([1e-3, 1e-2, 0.1, 1.0, 50.0]), noise=r.choice([0.0, 0.0, 0.0, 1.0, 10.0]),
                spread=r.choice([0.5, 2.0, 10.0]), fault=r.choice(["", "", "nan", "ninf", "grad"]), frate=r.choice([0.2, 0.6]),
                same_start=r.random() < 0.3, hurt=r.random() < 0.5, via=r.choice(["optimize", "call", "sampler"]),
                rng=r.choice(["sim", "sim", "threefry"]), progress=r.random() < 0.3)


def shrinks(scn):
    from sim.world import shrink_int, set_path
    for f, v in (("hurt", False), ("fault", ""), ("same_start", False), ("progress", False), ("noise", 0.0)):
        if scn[f] != v:
            yield set_path(scn, [f], v)
    yield from shrink_int(scn, ["n_chains"], 1)
    yield from shrink_int(scn, ["n"], 1)
    yield from shrink_int(scn, ["d"], 1)


def make(scn):
    import numpy as np
    import jax.numpy as jnp
    g = np.random.default_rng(scn["seed"])
    d = scn["d"]
    c = jnp.asarray(g.normal(size=d), core.flt())
    a = jnp.asarray(np.exp(g.normal(size=d)), core.flt())
    data = {"c": c, "w": jnp.asarray(1.0 + g.random(), core.flt()), "bad": jnp.asarray(jnp.nan if scn["fault"] != "ninf" else -jnp.inf)}
    if scn["progress"]:
        obj = {"linear": "quad", "multi": "quad"}.get(scn["obj"], scn["obj"])
    else:
        obj = scn["obj"]

    def base(x, data):
        y = (x - data["c"])
        return data["w"] * {"quad": lambda: -0.5 * jnp.sum(y**2), "linear": lambda: jnp.sum(y * a),
                            "cosh": lambda: -jnp.sum(jnp.log(jnp.cosh(jnp.clip(y, -20, 20))) + 0.01 * y**2),
                            "multi": lambda: jnp.sum(jnp.cos(3 * y)) - 0.05 * jnp.sum(y**2),
                            "aniso": lambda: -0.5 * jnp.sum(a * y**2)}[obj]()
    from sim.mcmc import hash_cells
    if scn["fault"] and not scn["progress"]:
        bad = lambda x: hash_cells(x, 1.0, scn["seed"] & 0xFFFF) < scn["frate"]
        if scn["fault"] == "grad":
            f = lambda x, data: base(x, data) + jnp.where(bad(x), 0.0 * jnp.sqrt(jnp.sum(0.0 * x)), 0.0)
        else:
            f = lambda x, data: jnp.where(bad(x), data["bad"] * (1 + 0 * jnp.sum(x)), base(x, data))
    else:
        f = base
    lo = np.full(d, -np.inf)
    hi = np.full(d, np.inf)
    k = scn["bounds"]
    L, Wd = scn["lo"], scn["width"]
    if k == "shared":
        B = [[L, L + Wd]]
    elif k == "per":
        B = [[L + 0.5 * q, L + 0.5 * q + Wd] if q % 2 == 0 else [-np.inf, np.inf] if g.random() < 0.3 else [L - q, L - q + 2 * Wd]
             for q in range(d)]
    elif k == "lower":
        B = [[L, np.inf]]
    elif k == "upper":
        B = [[-np.inf, L]]
    elif k == "point":
        B = [[L, L]]
    elif k == "far":
        B = [[40.0, 50.0]]
    else:
        B = None
    return f, data, None if B is None else np.asarray(B, core.flt()), g


def run(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import core, world as W
    from flowMC.strategy.optimization import AdamOptimization
    from flowMC.Sampler import Sampler
    f, data, B, g = make(scn)
    d, C = scn["d"], scn["n_chains"]
    lo = np.full(d, -np.inf, core.flt()) if B is None else np.broadcast_to(B[:, 0], (d,))
    hi = np.full(d, np.inf, core.flt()) if B is None else np.broadcast_to(B[:, 1], (d,))
    lp_of = lambda x: np.asarray(jax.jit(jax.vmap(f, (0, None)))(jnp.asarray(x), data))
    x0 = (g.normal(size=(C, d)) * scn["spread"]).astype(core.flt())
    if scn["progress"]:
        finite_lo, finite_hi = np.where(np.isfinite(lo), lo, -1e9), np.where(np.isfinite(hi), hi, 1e9)
        c = np.clip(np.asarray(data["c"]), finite_lo, finite_hi)
        n, lr = 300, 0.05
        # starts inside the box, far enough from the optimum for a descent to be visible
        x0 = np.clip(c + g.choice([-1.0, 1.0], size=(C, d)) * (2.0 + g.random((C, d))), finite_lo, finite_hi).astype(core.flt())
        noise = 0.0
    else:
        n, lr, noise = scn["n"], scn["lr"], scn["noise"]
        if scn["same_start"]:
            x0 = np.repeat(x0[:1], C, axis=0)
    kw = {} if B is None else dict(bounds=jnp.asarray(B))
    with sut("AdamOptimization()"):
        st = AdamOptimization(f, n_steps=n, learning_rate=lr, noise_level=noise, **kw)
    key = core.make_key(scn["seed"], scn["rng"])

    def go(x):
        if scn["via"] == "optimize":
            k, p, lp = st.optimize(key, lambda z, dd: -f(z, dd), jnp.asarray(x), data)
            return k, np.asarray(p), np.asarray(lp)
        res = {"b": W.Buffer("b", (2, 2), 0), "s": W.State({"a": 1}, name="s"), "l": W.LogPDF(f, n_dims=d)}
        snap = W.snap_resources(res)
        if scn["via"] == "call":
            k, r, p = st(key, res, jnp.asarray(x), data)
        else:
            got = []
            smp = Sampler(d, C, key, resources=res, strategies={"o": W.Spy("o", st, after=lambda n_, a, o: got.append(o))},
                          strategy_order=["o"])
            smp.sample(jnp.asarray(x), data)
            (k, r, p), = got
        if r is not res or W.diff_resources(snap, W.snap_resources(res)):
            raise Violation("resources-changed", f"optimising changed resources {W.diff_resources(snap, W.snap_resources(res))}")
        return k, np.asarray(p), None
    what = f"{scn['obj']} bounds {scn['bounds']} n={n} lr={lr} noise={noise} via {scn['via']}"
    with sut(what):
        k1, p, lp = go(x0)
    from sim.props.c15 import same_key
    if same_key(k1, key):
        raise Violation("key-not-advanced", f"{what}: returned the key it was given")
    ctx.steps += n * C
    if p.shape != x0.shape:
        raise Violation("wrong-shape", f"{what}: returned shape {p.shape} for {x0.shape}")
    own_fault = np.isnan(p).any(1)
    if own_fault.any() and (not scn["fault"] or scn["progress"]):
        raise Violation("nan-position", f"{what}: chain {int(np.argmax(own_fault))} returned {p[np.argmax(own_fault)].tolist()} though the "
                        "objective is defined everywhere")
    out = ~own_fault[:, None] & ((p < lo) | (p > hi))
    if out.any():
        c, q = np.argwhere(out)[0]
        raise Violation("outside-bounds", f"{what}: chain {c} from {x0[c].tolist()} returned {p[c].tolist()}, bounds "
                        f"[{lo[q]}, {hi[q]}] in dimension {q}")
    if lp is not None:
        want = lp_of(p)
        check_lp(what, p, lp, want, core)
        ctx.probes["log densities compared"] += C
    moved = (p != x0).any(1)
    active = bool(((p == lo) | (p == hi)).any())
    ctx.probes["chains moved"] += int(moved.sum())
    ctx.probes["a bound was active"] += active
    ctx.probes["start outside the bounds"] += bool(((x0 < lo) | (x0 > hi)).any())
    ctx.faults["objective " + scn["fault"]] += int(own_fault.sum()) if scn["fault"] else 0
    ctx.state(scn["obj"], scn["bounds"], noise, scn["fault"], active, scn["via"])
    ctx.log(p)
    if scn["hurt"] and C > 1:
        who = int(g.integers(C))
        x1 = x0.copy()
        x1[who] = g.choice([np.nan, 5.0, 1e30]) if g.random() < 0.7 else x1[who] + 1
        with sut(what):
            _, p1, lp1 = go(x1)
        if lp1 is not None:
            check_lp(what + f", chain {who} disturbed", p1, lp1, lp_of(p1), core)
        if not np.isfinite(x1[who]).all():      # the failing chain does not depend on the others either
            x2 = np.where(np.arange(C)[:, None] == who, x1, x1 + 0.5).astype(x1.dtype)
            with sut(what):
                _, p2, _ = go(x2)
            if p2[who].tobytes() != p1[who].tobytes():
                raise Violation("chains-interact", f"{what}: chain {who}, started at {x1[who].tolist()}, ended at {p2[who].tolist()} instead "
                                f"of {p1[who].tolist()} when the other chains started elsewhere")
            ctx.faults["chain without a defined start"] += 1
        for c in range(C):
            if c != who and p1[c].tobytes() != p[c].tobytes():
                raise Violation("chains-interact", f"{what}: chain {c} ended at {p1[c].tolist()} instead of {p[c].tolist()} when only chain "
                                f"{who} started elsewhere")
        ctx.faults["chain disturbed"] += 1
        ctx.log(p1)
    if scn["same_start"] and not scn["progress"] and noise >= 1 and n >= 20 and B is None and C >= 4 and not scn["fault"] and scn["obj"] != "linear":
        if len({q.tobytes() for q in p}) < C - 1:
            raise Violation("shared-noise", f"{what}: {C} chains from the same start ended at only {len({q.tobytes() for q in p})} places")
        ctx.probes["own randomness compared"] += 1
    if scn["progress"]:
        before, after = lp_of(x0), lp_of(p)
        room = np.abs(x0 - c_opt(data, lo, hi)).max(1) > 0.05
        worse = room & ~(after > before)
        if worse.any():
            q = int(np.argmax(worse))
            raise Violation("no-progress", f"{what}: chain {q} went from log density {before[q]} to {after[q]} ({x0[q].tolist()} -> {p[q].tolist()})")
        far = np.abs(p - c_opt(data, lo, hi)).max(1) > 0.35 * np.maximum(np.abs(x0 - c_opt(data, lo, hi)).max(1), 0.5)
        if far.any():
            q = int(np.argmax(far))
            raise Violation("no-convergence", f"{what}: chain {q} is at {p[q].tolist()} after {n} steps, the optimum in the box is "
                            f"{c_opt(data, lo, hi).tolist()}, it started at {x0[q].tolist()}")
        ctx.probes["progress compared"] += int(room.sum())


def check_lp(what, p, lp, want, core):
    import numpy as np
    bad = ~((np.abs(lp - want) <= (1e-4 + 1e-4 * np.abs(want)) * core.eps()) | (lp == want) | (np.isnan(lp) & np.isnan(want)))
    if bad.any():
        c = int(np.argmax(bad))
        raise Violation("log-density-mismatch", f"{what}: chain {c} at {p[c].tolist()} reported {lp[c]}, the target is {want[c]}")


def c_opt(data, lo, hi):
    import numpy as np
    return np.clip(np.asarray(data["c"]), lo, hi)
