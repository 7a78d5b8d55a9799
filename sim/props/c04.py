"""C04: every retained step is recorded exactly once, in order, in the right place."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 260, "thorough": 6000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "MCMC steps taken by the simulated chains"
RULE = ("A run draws chain count, dimensions, batch size, several serial/group steppers with their own step "
        "counts and thinnings, buffer groups and a random schedule of step / set-cursor / sync-cursor / redirect "
        "operations (or a whole bundle with random loops, thinnings and batches), executes it through Sampler and "
        "compares every buffer with a reference recorder after every operation. Non-trivial: at least one step ran; "
        "distinct: different event logs.")
STATE_MEASURE = "(cursor, buffer group, stepper kind, n_steps, thinning, batch layout) tuples reached"
REAL = ["Sampler", "TakeSerialSteps", "TakeGroupSteps", "Buffer", "State", "UpdateState", "Lambda",
        "both bundles (cursor bookkeeping, buffer sizing, strategy order)", "TrainModel", "ParallelTempering"]
STUB = ["kernels: counters that make every step recognisable", "flow: diagonal Gaussian trained by the real code"]
ASSUMPTIONS = ["which of the k residues thinning k keeps is left to the implementation"]


def gen(r, i, tier):
    if r.random() < 0.16:
        return gen_bundle(r)
    n_chains = r.choice([1, 2, 3, 4, 5, 7])
    steppers = []
    for _ in range(r.choice([1, 2, 2, 3])):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
        steppers.append(dict(kind=r.choice(["serial", "group"]), n=n,
                             thin=r.choice([1, 1, 2, 3, r.randint(1, n), n, n + 1]),
                             batch=r.choice([0, 0, 1, 2, 3, n_chains - 1, n_chains, n_chains + 1])))
    groups = [r.randint(6, 30) for _ in range(r.choice([1, 2, 2]))]
    cur, g, ops = [0] * len(steppers), 0, []
    for _ in range(r.randint(3, 14)):
        c = r.random()
        k = r.randrange(len(steppers))
        adv = steppers[k]["n"] // steppers[k]["thin"]
        if c < 0.62:
            if cur[k] + adv <= groups[g]:
                ops.append(["step", k])
                cur[k] += adv
            elif adv <= groups[g]:
                p = r.randint(0, groups[g] - adv)
                ops += [["set", k, p], ["step", k]]
                cur[k] = p + adv
        elif c < 0.75 and len(steppers) > 1:
            j = r.randrange(len(steppers))
            ops.append(["sync", k, j])
            cur[k] = cur[j]
        elif c < 0.88:
            p = r.randint(0, groups[g])
            ops.append(["set", k, p])
            cur[k] = p
        else:
            g = r.randrange(len(groups))
            ops.append(["redirect", g])
    return dict(type="steppers", n_chains=n_chains, n_dims=r.randint(1, 3), groups=groups, steppers=steppers,
                ops=ops, shift=r.randint(-5, 5))


def gen_bundle(r):
    nl, ng = r.randint(2, 7), r.randint(1, 6)
    return dict(type="bundle", pt=r.random() < 0.5, n_chains=r.choice([1, 2, 3, 5]), n_dims=r.choice([1, 2, 3]),
                n_local=nl, n_global=ng, thin_l=r.randint(1, nl), thin_g=r.choice([1, 1, 2, ng, ng + 1]),
                train=r.choice([0, 1, 1, 2, 3]), prod=r.choice([0, 1, 2, 3]), epochs=r.choice([1, 2]),
                batch=r.choice([0, 0, 2, 3]), n_temps=r.choice([2, 3]), n_tempered=r.choice([-1, 1, 2]),
                window=r.choice([1, 3, 100]), shift=r.randint(-5, 5))


def shrinks(scn):
    from sim.world import shrink_list, shrink_int
    if scn["type"] == "steppers":
        yield from shrink_list(scn, "ops", 1)
        yield from shrink_int(scn, ["n_chains"], 1)
        yield from shrink_int(scn, ["n_dims"], 1)
        for k in range(len(scn["steppers"])):
            for f, lo in (("n", 1), ("thin", 1), ("batch", 0)):
                yield from shrink_int(scn, ["steppers", k, f], lo)
    else:
        for f, lo in (("train", 0), ("prod", 0), ("n_chains", 1), ("n_dims", 1), ("n_local", 2), ("n_global", 1),
                      ("thin_l", 1), ("thin_g", 1), ("batch", 0), ("n_temps", 2), ("epochs", 1)):
            yield from shrink_int(scn, [f], lo)


def run(scn, ctx):
    if scn["type"] == "bundle":
        return run_bundle(scn, ctx)
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from flowMC.Sampler import Sampler
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.strategy.update_state import UpdateState
    C, D = scn["n_chains"], scn["n_dims"]
    shift = float(scn["shift"])
    names = ["P", "L", "A", "B"]
    res, model = {}, []
    for g, size in enumerate(scn["groups"]):
        shapes = {"P": (C, size, D), "L": (C, size), "A": (C, size), "B": (C, size)}
        for n in names:
            res[f"{n}{g}"] = W.Buffer(f"{n}{g}", shapes[n], 1)
        model.append({n: np.full(shapes[n], -np.inf, core.flt()) for n in names})
    res["state"] = W.State({n: f"{n}0" for n in names}, name="state")
    res["logpdf"] = W.LogPDF(lambda x, data: jnp.sum(data["shift"]) - x[0], n_dims=D)
    res["serial"], res["group"] = W.CounterKernel(), W.CounterGroupKernel()
    strategies, objs = {}, []
    for k, s in enumerate(scn["steppers"]):
        cls = TakeSerialSteps if s["kind"] == "serial" else TakeGroupSteps
        o = cls("logpdf", s["kind"], "state", ["P", "L", "A" if s["kind"] == "serial" else "B"], s["n"],
                thinning=s["thin"], chain_batch_size=s["batch"], verbose=core.flag(scn, "verbose"))
        objs.append(o)
        strategies[f"step{k}"] = o
    order = []
    for j, op in enumerate(scn["ops"]):
        name = f"op{j}"
        if op[0] == "step":
            name = f"op{j}:step"
            strategies[name] = strategies[f"step{op[1]}"]
        elif op[0] == "set":
            strategies[name] = Lambda(lambda a, b, c, d, k=op[1], p=op[2]: objs[k].set_current_position(p))
        elif op[0] == "sync":
            strategies[name] = Lambda(lambda a, b, c, d, k=op[1], q=op[2]: objs[k].set_current_position(objs[q].current_position))
        else:
            strategies[name] = UpdateState("state", names, [f"{n}{op[1]}" for n in names])
        order.append(name)
    cur, group, offs = [0] * len(objs), [0], {}

    def after(name, args, out):
        j = int(name[2:].split(":")[0])
        op = scn["ops"][j]
        start, end, bufs = np.array(args[2]), np.array(out[2]), out[1]
        if op[0] == "step":
            k = op[1]
            s = scn["steppers"][k]
            n, t = s["n"], s["thin"]
            m = n // t
            want_end = start.copy()
            want_end[:, 0] += n
            if not np.array_equal(end, want_end):
                raise Violation("wrong-end-position", f"{name} {s}: returned {end[:, 0].tolist()}, the chains end at "
                                f"{want_end[:, 0].tolist()}")
            fl = "A" if s["kind"] == "serial" else "B"
            g, p = group[0], cur[k]
            M = model[g]
            if m:
                got = np.array(bufs[f"P{g}"].data)[0, p, 0] - start[0, 0]
                key = (k, n, t)
                o = offs.setdefault(key, got)
                if got != o or not (1 <= got <= n - (m - 1) * t):
                    raise Violation("wrong-record", f"{name} {s} at cursor {p}: first kept record is step {got} of {n}")
                for c in range(C):
                    for q in range(m):
                        cnt = start[c, 0] + got + q * t
                        row = start[c].copy()
                        row[0] = cnt
                        M["P"][c, p + q] = row
                        M["L"][c, p + q] = core.flt()(shift) - core.flt()(cnt)
                        M[fl][c, p + q] = float(cnt % 3 != 0)
            cur[k] += m
            ctx.steps += n * C
            ctx.state(p, g, s["kind"], n, t, s["batch"], C)
            ctx.probes["thinning does not divide n_steps"] += n % t != 0
            ctx.probes["thinning larger than n_steps"] += t > n
            ctx.probes["partial last batch"] += 1 < s["batch"] < C and C % s["batch"] != 0
            ctx.probes["full last batch"] += 1 < s["batch"] < C and C % s["batch"] == 0
        else:
            if not np.array_equal(end, start):
                raise Violation("position-changed", f"{name} {op} changed the chains' positions")
            if op[0] == "set":
                cur[op[1]] = op[2]
            elif op[0] == "sync":
                cur[op[1]] = cur[op[2]]
            else:
                group[0] = op[1]
                ctx.probes["record redirected to another buffer group"] += 1
        for k, o in enumerate(objs):
            if o.current_position != cur[k]:
                raise Violation("wrong-cursor", f"after {name} {op}: stepper {k} {scn['steppers'][k]} stands at "
                                f"{o.current_position}, its records end at {cur[k]}")
        for g, M in enumerate(model):
            for n in names:
                d = np.array(bufs[f"{n}{g}"].data)
                if d.shape != M[n].shape or not np.array_equal(d, M[n]):
                    bad = np.argwhere(d != M[n])[:3].tolist() if d.shape == M[n].shape else d.shape
                    raise Violation("wrong-records", f"after {name} {op}: buffer {n}{g} differs from the steps taken at "
                                    f"{bad}", op=op)
        ctx.log(name, op, cur[:], group[0], np.array(bufs[f"P{group[0]}"].data))

    init = jnp.stack([jnp.arange(C) * 1000.0] + [jnp.arange(C) * 7.0 + d for d in range(1, D)], axis=1)
    smp = Sampler(D, C, jax.random.PRNGKey(scn["seed"] & 0xFFFF), resources=res, strategies=strategies, strategy_order=order)
    W.spy_all(smp, after=after)
    with sut("Sampler.sample"):
        smp.sample(init, {"shift": jnp.zeros(C).at[0].set(shift)})


def run_bundle(scn, ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    from sim import world as W
    from sim.bundle import make_bundle
    from flowMC.Sampler import Sampler
    C, D = scn["n_chains"], scn["n_dims"]
    shift = float(scn["shift"])
    with sut("bundle construction"):
        b = make_bundle(scn, lambda x, data: jnp.sum(data["shift"]) - x[0])
    b.resources["local_sampler"] = W.CounterKernel()
    flow = W.TinyFlow(D)
    b.resources["model"] = flow
    b.resources["global_sampler"] = W.CounterGroupKernel(flow)
    from flowMC.resource.optimizer import Optimizer
    b.resources["optimizer"] = Optimizer(flow, learning_rate=1e-3)
    smp = Sampler(D, C, jax.random.PRNGKey(scn["seed"] & 0xFFFF), resource_strategy_bundles=b)
    want = {"training": [], "production": []}
    phase = ["training"]

    def before(name, key, resources, pos, data):
        if name in ("local_stepper", "global_stepper"):
            n, t = ((scn["n_local"], scn["thin_l"]) if name == "local_stepper" else (scn["n_global"], scn["thin_g"]))
            want[phase[0]].append((name, np.array(pos), n, t))
            ctx.steps += n * C
        if name == "update_state":
            phase[0] = "production"

    W.spy_all(smp, before=before)
    init = jnp.stack([jnp.arange(C) * 1000.0] + [jnp.arange(C) * 7.0 + d for d in range(1, D)], axis=1)
    with sut("Sampler.sample with a bundle"):
        smp.sample(init, {"shift": jnp.zeros(C).at[0].set(shift)})
    exp_calls = {"training": scn["train"], "production": scn["prod"]}
    for ph in want:
        calls = [w[0] for w in want[ph]]
        if calls != ["local_stepper", "global_stepper"] * exp_calls[ph]:
            raise Violation("wrong-loops", f"{ph}: {exp_calls[ph]} loops asked for, steps run: {calls}")
        P = np.array(smp.resources[f"positions_{ph}"].data)
        L = np.array(smp.resources[f"log_prob_{ph}"].data)
        F = {"local_stepper": np.array(smp.resources[f"local_accs_{ph}"].data),
             "global_stepper": np.array(smp.resources[f"global_accs_{ph}"].data)}
        p = 0
        for name, start, n, t in want[ph]:
            m = n // t
            if p + m > P.shape[1]:
                raise Violation("bundle-buffer-too-small", f"{ph} buffer has {P.shape[1]} cells, {p + m} records are due")
            if m:
                o = P[0, p, 0] - start[0, 0]
                if not 1 <= o <= n - (m - 1) * t:
                    raise Violation("bundle-wrong-record", f"{ph} {name} at {p}: kept record is step {o} of {n}")
                for c in range(C):
                    for q in range(m):
                        row = start[c].copy()
                        row[0] += o + q * t
                        if not np.array_equal(P[c, p + q], row) or L[c, p + q] != core.flt()(shift) - row[0]:
                            raise Violation("bundle-wrong-records", f"{ph} cell [{c},{p + q}] holds {P[c, p + q].tolist()} / "
                                            f"{L[c, p + q]}, the chain was at {row.tolist()}")
                        if F[name][c, p + q] != float(row[0] % 3 != 0):
                            raise Violation("bundle-wrong-flag", f"{ph} {name} flag at [{c},{p + q}] is {F[name][c, p + q]}")
            p += m
            ctx.state(ph, name, p, n, t)
        if p != P.shape[1] or L.shape[1] != p:
            raise Violation("bundle-unfilled", f"{ph} buffer has {P.shape[1]} cells but {p} records were taken")
        if not (np.isfinite(P).all() and np.isfinite(L).all()):
            raise Violation("bundle-unfilled", f"{ph} buffers have unfilled cells")
        ctx.log(ph, P, L)
    ctx.probes["bundle run"] += 1
    ctx.probes["bundle run, thinning does not divide"] += scn["n_local"] % scn["thin_l"] != 0
