"""C12: tempering conserves walkers and keeps a valid ladder."""
import itertools

from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 220, "thorough": 8000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "walker steps (chains x temperatures x tempered steps)"
RULE = ("A run draws a ladder, chains, log likelihoods and log priors of every walker (far apart, equal, or within chance), "
        "the training flag and a schedule of several tempering calls, and executes the real ParallelTempering with a kernel "
        "that writes what it was given (its log density, the log density it was told, the number of steps) into the walker's "
        "own position. Every call is compared with the set of outcomes the exchange rule allows. Non-trivial: at least one "
        "exchange was decided. Distinct: different event logs.")
STATE_MEASURE = "(temperatures, training flag, pattern of the walkers, exchange decisions) combinations reached"
REAL = ["ParallelTempering", "TemperedPDF", "Buffer", "State", "RQSpline_MALA_PT_Bundle in part of the runs"]
STUB = ["local kernel: writes what it sees into the position, or an exact sampler of its tempered density"]
ASSUMPTIONS = ["the chance runs compare acceptance frequencies over at least 1500 chains within 6 standard errors"]


def gen(r, i, tier):
    k = r.random()
    T = r.choice([2, 2, 3, 3, 4, 5, 6])
    lad = r.choice(["lin", "geo", "uneven"])
    if k < 0.62:
        typ = "forced"
    elif k < 0.82:
        typ = "chance"
    elif k < 0.95:
        typ = "direction"
        T = r.choice([3, 3, 4, 5])
    else:
        typ = "converge"
        T = r.choice([3, 4])
    C = r.choice([1, 2, 3, 5, 8, 40])
    calls = []
    for _ in range(r.choice([1, 2, 3])):
        calls.append(dict(train=r.random() < 0.6, pat=r.choice(["desc", "asc", "equal", "mixed", "mixed", "mixed"])))
    return dict(type=typ, T=T, C=C, lad=lad, tmax=r.choice([2.0, 5.0, 20.0, 1000.0]), n=r.choice([1, 2, 3]), calls=calls,
                g=r.randint(0, 10**6), prior=r.choice(["zero", "mild", "wild"]), d=r.choice([5, 6]),
                rng=r.choice(["sim", "sim", "threefry"]), gap=r.choice([60.0, 200.0, 3000.0]),
                bias=r.choice(["low", "high", "same"]), verbose=r.random() < 0.1)


def shrinks(scn):
    from sim.world import shrink_list, shrink_int, set_path
    yield from shrink_list(scn, "calls", 1)
    if scn["type"] in ("forced", "direction"):
        yield from shrink_int(scn, ["C"], 1)
    if scn["type"] == "forced":
        yield from shrink_int(scn, ["T"], 2)
    yield from shrink_int(scn, ["n"], 1)
    if scn["prior"] != "zero":
        yield set_path(scn, ["prior"], "zero")


def ladder(scn, g):
    import numpy as np
    T, m = scn["T"], scn["tmax"]
    if scn["lad"] == "lin":
        t = np.linspace(1.0, m, T)
    elif scn["lad"] == "geo":
        t = np.geomspace(1.0, m, T)
    else:
        t = np.concatenate([[1.0], np.sort(1 + (m - 1) * (0.1 + 0.8 * g.random(T - 2))), [m]])
    if core.flag(scn, "t0", 5):     # the coldest temperature is whatever the user set, not necessarily 1
        t = t * [0.5, 2.0, 3.0][scn["g"] % 3]
    return t.astype(np.float32)


# A walker's position: [id, log likelihood, log prior, log density the kernel saw, sum of the log densities it was told, steps...]
def world(scn, kernel, T, C, d):
    import jax.numpy as jnp
    from sim import world as W
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    from flowMC.strategy.parallel_tempering import ParallelTempering
    pdf = TemperedPDF(LogPDF(lambda x, data: data["a"] * x[1], n_dims=d), lambda x, data: data["b"] * x[2], n_dims=d, n_temps=T)
    res = dict(k=kernel, pdf=pdf, hot=W.Buffer("hot", (C, T - 1, d), 2), temps=W.Buffer("temps", (T,), 0),
               st=W.State({"training": True}, name="st"))
    return res, ParallelTempering(scn["n"], "pdf", "k", ["hot", "temps"], "st", verbose=scn.get("verbose", False))


def probe_kernel():
    import jax.numpy as jnp
    from sim import world as W

    class Probe(W._Unsaved, W.ProposalBase):
        def __init__(self):
            pass

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            lp = logpdf(position, data)
            position = position.at[3].set(lp).at[4].add(log_prob)
            if position.shape[0] > 5:
                position = position.at[5].add(1.0)
            return position, lp, jnp.asarray(True)
    return Probe()


def check_ladder(what, before, after, training):
    import numpy as np
    if not training:
        if before.tobytes() != after.tobytes():
            raise Violation("ladder-changed", f"{what}: not training, but the ladder went from {before.tolist()} to {after.tolist()}")
        return
    if after.shape != before.shape or not np.isfinite(after).all():
        raise Violation("ladder-not-finite", f"{what}: {before.tolist()} -> {after.tolist()}")
    if after[0] != before[0] or after[-1] != before[-1]:
        raise Violation("ladder-not-pinned", f"{what}: {before.tolist()} -> {after.tolist()}")
    if (np.diff(after) < -1e-5 * after[1:]).any():
        raise Violation("ladder-not-ordered", f"{what}: {before.tolist()} -> {after.tolist()}")


def run(scn, ctx):
    if scn["type"] == "converge":
        return run_converge(scn, ctx)
    import numpy as np
    import jax.numpy as jnp
    from sim import core
    g = np.random.default_rng(scn["g"])
    T, d = scn["T"], scn["d"]
    C = 1500 if scn["type"] == "chance" else scn["C"]
    res, strat = world(scn, probe_kernel(), T, C, d)
    temps = ladder(scn, g)
    res["temps"].data = jnp.asarray(temps)
    a, b = np.float32(g.choice([0.5, 1.0, 2.0])), np.float32(g.choice([1.0, 2.0]))
    data = {"a": jnp.asarray(a), "b": jnp.asarray(b)}
    key = core.make_key(scn["seed"], scn["rng"])
    for j, call in enumerate(scn["calls"]):
        temps = np.array(res["temps"].data)
        beta = 1.0 / temps.astype(np.float64)
        db = beta[1:] - beta[:-1]           # <= 0
        usable = (-db > 1e-4).all()
        # log likelihoods (before data["a"]) of the walker at each temperature
        ll = np.zeros((C, T))
        if scn["type"] == "chance":
            # neighbours differ so that each exchange is a matter of chance: ratio around -1.2
            if usable:
                ll[:] = np.concatenate([[0.0], np.cumsum(-1.2 / -db)])[None] / a
        elif scn["type"] == "direction":
            up = np.full(T - 1, {"low": True, "high": False, "same": True}[scn["bias"]])
            if scn["bias"] == "low":      # only the lowest pair exchanges
                up[1:] = False
            elif scn["bias"] == "high":   # only the highest pair exchanges
                up[-1] = True
            if usable:
                steps = np.where(up, 1.0, -1.0) * (60.0 / -db)
                if scn["bias"] == "low":
                    ll[:, 1] = steps[0]
                    for t in range(2, T):       # below both walkers it can meet
                        ll[:, t] = -np.cumsum(60.0 / -db)[t - 1]
                elif scn["bias"] == "high":
                    for t in range(1, T - 1):
                        ll[:, t] = -np.cumsum(60.0 / -db)[t - 1]
                    ll[:, T - 1] = ll[:, T - 2] + 60.0 / -db[-1]
            ll /= a
        else:
            unit = scn["gap"] / np.min(-db) if usable else 1.0
            ranks = {"desc": np.tile(np.arange(T)[::-1], (C, 1)), "asc": np.tile(np.arange(T), (C, 1)),
                     "equal": np.zeros((C, T)),
                     "mixed": np.array([g.permutation(T) if g.random() < 0.7 else g.integers(0, 2, T) for _ in range(C)])}[call["pat"]]
            ll = ranks * unit / a
        ll = ll.astype(np.float32)
        pr = (g.normal(size=(C, T)) * {"zero": 0.0, "mild": 1.0, "wild": 1e4}[scn["prior"]]).astype(np.float32)
        x = np.zeros((C, T, d), np.float32)
        x[:, :, 0] = np.arange(C * T).reshape(C, T)
        x[:, :, 1], x[:, :, 2] = ll, pr
        res["hot"].data = jnp.asarray(x[:, 1:])
        res["st"].data["training"] = bool(call["train"])
        with sut("ParallelTempering"):
            key, res, cold = strat(key, res, jnp.asarray(x[:, 0]), data)
        out = np.concatenate([np.array(cold)[:, None], np.array(res["hot"].data)], axis=1)
        new_temps = np.array(res["temps"].data)
        ctx.steps += C * T * scn["n"]
        what = f"call {j} {scn['type']} T={T} C={C} {call}"
        # --- conservation
        if out.shape != x.shape or not np.isfinite(out).all():
            raise Violation("walkers-lost", f"{what}: walkers {x.shape} -> {out.shape}")
        ids = out[:, :, 0].astype(int)
        if not np.array_equal(np.sort(ids, axis=1), x[:, :, 0].astype(int)):
            c = int(np.argwhere((np.sort(ids, axis=1) != x[:, :, 0].astype(int)).any(1))[0][0])
            raise Violation("walkers-lost", f"{what}: chain {c} held walkers {x[c, :, 0].astype(int).tolist()}, now holds "
                            f"{ids[c].tolist()}")
        home = ids - ids.min(axis=1, keepdims=True)     # temperature each walker came from
        rows = np.take_along_axis(x, home[:, :, None], axis=1)
        if not np.array_equal(rows[:, :, 1:3], out[:, :, 1:3]):
            raise Violation("walker-changed", f"{what}: an exchange changed a walker's coordinates")
        # --- each walker moved under its own temperature
        want = (np.float64(a) * rows[:, :, 1] * beta[home] + np.float64(b) * rows[:, :, 2])
        tol = 1e-4 * (1 + np.abs(np.float64(a) * rows[:, :, 1] * beta[home]) + np.abs(np.float64(b) * rows[:, :, 2]))
        bad = np.abs(out[:, :, 3] - want) > tol
        if bad.any():
            c, t = np.argwhere(bad)[0]
            raise Violation("wrong-density", f"{what}: the walker of chain {c} at temperature {temps[home[c, t]]} moved under log "
                            f"density {out[c, t, 3]}, should be {want[c, t]} (likelihood {a * rows[c, t, 1]}, prior {b * rows[c, t, 2]})")
        bad = np.abs(out[:, :, 4] - want * scn["n"]) > tol * scn["n"] * 2
        if bad.any():
            c, t = np.argwhere(bad)[0]
            raise Violation("wrong-log-prob", f"{what}: over {scn['n']} steps the walker of chain {c} at temperature "
                            f"{temps[home[c, t]]} was told log densities adding to {out[c, t, 4]}, should be {want[c, t] * scn['n']}")
        if d > 5 and not (out[:, :, 5] == scn["n"]).all():
            raise Violation("wrong-step-count", f"{what}: walkers took {np.unique(out[:, :, 5]).tolist()} steps, not {scn['n']}")
        # --- exchange decisions
        if usable:
            if scn["type"] == "chance":
                chance(what, home, T, C, ctx)
            else:
                allowed = {}
                for c in range(C):
                    k = tuple(ll[c].tolist())
                    if k not in allowed:
                        allowed[k] = outcomes(np.float64(a) * ll[c].astype(np.float64), db)
                    if allowed[k] is None:
                        continue
                    if tuple(home[c].tolist()) not in allowed[k]:
                        raise Violation("wrong-exchange", f"{what}: chain {c} with log likelihoods {(a * ll[c]).tolist()} at temperatures "
                                        f"{temps.tolist()}: walkers ended as {home[c].tolist()}, the exchange rule allows {sorted(allowed[k])}")
                    ctx.probes["exchange order forced"] += 1
                    ctx.state(T, call["train"], tuple(home[c].tolist()))
        else:
            ctx.probes["ladder degenerated (no exchange check)"] += 1
        # --- ladder
        check_ladder(what, temps, new_temps, call["train"])
        if scn["type"] == "direction" and call["train"] and usable:
            gap0, gap1 = np.diff(temps), np.diff(new_temps)
            room = new_temps[-1] - new_temps[-2] > 1e-3 * new_temps[-1] and gap0.min() > 1e-3
            if scn["bias"] == "same" and np.abs(new_temps - temps).max() > 1e-4 * temps[-1]:
                raise Violation("wrong-adaptation", f"{what}: all exchange rates equal, but the ladder moved {temps.tolist()} -> "
                                f"{new_temps.tolist()}")
            if scn["bias"] == "low" and T == 3 and not (gap1[0] > gap0[0] or new_temps[1] > 0.99 * temps[-1] or not room):
                raise Violation("wrong-adaptation", f"{what}: only the lowest pair exchanges, but its gap did not grow: "
                                f"{temps.tolist()} -> {new_temps.tolist()}")
            if scn["bias"] == "low" and T > 3 and room and gap1[0] / gap0[0] < gap1[1] / gap0[1]:
                raise Violation("wrong-adaptation", f"{what}: only the lowest pair exchanges, but its gap lost against the next: "
                                f"{temps.tolist()} -> {new_temps.tolist()}")
            if scn["bias"] == "high" and gap1[-2] >= gap0[-2]:
                raise Violation("wrong-adaptation", f"{what}: the highest pair exchanges and the one below does not, but the gap below "
                                f"did not shrink: {temps.tolist()} -> {new_temps.tolist()}")
            ctx.probes["adaptation direction checked: " + scn["bias"]] += 1
        ctx.probes["training call"] += call["train"]
        ctx.probes["production call"] += not call["train"]
        ctx.log(j, call, home.tolist() if C < 9 else home, new_temps.tolist())


def outcomes(ll, db):
    """All outcomes when every pair is tried once, in any order, and each decision is certain. None if one is not."""
    T = len(ll)
    out = set()
    orders = itertools.permutations(range(T - 1)) if T <= 5 else [tuple(range(T - 1)), tuple(range(T - 2, -1, -1)),
                                                                  tuple(range(0, T - 1, 2)) + tuple(range(1, T - 1, 2)),
                                                                  tuple(range(1, T - 1, 2)) + tuple(range(0, T - 1, 2))]
    for order in orders:
        p = list(range(T))
        for q in order:
            ratio = db[q] * (ll[p[q]] - ll[p[q + 1]])
            if ratio >= 0:
                p[q], p[q + 1] = p[q + 1], p[q]
            elif ratio > -35:
                return None
        out.add(tuple(p))
    return out


def chance(what, home, T, C, ctx):
    """Pair q exchanges with probability exp(-1.2) given that the walker below is the original one."""
    import numpy as np
    p = np.exp(-1.2)
    if T == 2:
        k = (home[:, 0] == 1).sum()
        z = (k - C * p) / np.sqrt(C * p * (1 - p))
        if abs(z) > 6:
            raise Violation("wrong-exchange-rate", f"{what}: {k} of {C} exchanges with ratio exp(-1.2), expected {C * p:.0f}")
    else:
        # whatever the order of the pairs: the top temperature keeps its walker unless the last pair exchanged. If nothing
        # moved below, that happens with probability p; the walker brought up by earlier exchanges makes it rarer.
        none = (home == np.arange(T)).all(1).sum()
        q = (1 - p) ** (T - 1)
        z = (none - C * q) / np.sqrt(C * q * (1 - q))
        if abs(z) > 6:
            raise Violation("wrong-exchange-rate", f"{what}: no exchange in {none} of {C} chains, expected {C * q:.0f}")
    ctx.probes["exchange frequency checked"] += 1
    ctx.state("chance", T)


def run_converge(scn, ctx):
    """Exact sampling at every temperature: the adapted ladder must make the exchange rates more equal."""
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import core, world as W
    T, C, d = scn["T"], 400, 5
    g = np.random.default_rng(scn["g"])

    class Exact(W._Unsaved, W.ProposalBase):
        def __init__(self):
            pass

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            e = jnp.zeros(d).at[0].set(1.0)
            temp = -0.5 / logpdf(e, data)
            x = jnp.sqrt(temp) * jax.random.normal(rng_key, (d,))
            return x, logpdf(x, data), jnp.asarray(True)
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    from flowMC.strategy.parallel_tempering import ParallelTempering
    pdf = TemperedPDF(LogPDF(lambda x, data: -0.5 * jnp.sum(x**2), n_dims=d), lambda x, data: 0.0, n_dims=d, n_temps=T)
    temps = np.linspace(1.0, 30.0, T).astype(np.float32)
    res = dict(k=Exact(), pdf=pdf, hot=W.Buffer("hot", (C, T - 1, d), 2), temps=W.Buffer("temps", (T,), 0),
               st=W.State({"training": True}, name="st"))
    res["temps"].data = jnp.asarray(temps)
    res["hot"].data = jnp.zeros((C, T - 1, d))
    strat = ParallelTempering(1, "pdf", "k", ["hot", "temps"], "st")
    key = core.make_key(scn["seed"], scn["rng"])
    pos = jnp.zeros((C, d))
    hist = [temps]
    for j in range(12):
        before = np.array(res["temps"].data)
        with sut("ParallelTempering"):
            key, res, pos = strat(key, res, pos, {})
        hist.append(np.array(res["temps"].data))
        check_ladder(f"call {j}", before, hist[-1], True)
        ctx.steps += C * T

    def rates(t):
        """Exchange rates between neighbours for exact draws of a d-dimensional Gaussian."""
        q = np.random.default_rng(1)
        r2 = q.chisquare(d, size=(2, 200000))
        out = []
        for u, v in zip(t[:-1], t[1:]):
            out.append(np.minimum(1, np.exp((1 / v - 1 / u) * (-0.5 * u * r2[0] + 0.5 * v * r2[1]))).mean())
        return np.array(out)
    r0, r1 = rates(hist[0].astype(float)), rates(hist[-1].astype(float))
    s0, s1 = np.ptp(r0), np.ptp(r1)
    ctx.probes["ladder adapted in a closed loop"] += 1
    ctx.log("converge", hist[0].tolist(), hist[-1].tolist(), round(float(s0), 3), round(float(s1), 3))
    ctx.state("converge", T)
    if s1 > 0.8 * s0:
        raise Violation("adaptation-diverges", f"spread of the exchange rates went from {s0:.3f} to {s1:.3f} in 12 training calls; "
                        f"ladder {hist[0].tolist()} -> {hist[-1].tolist()}")
