"""C16: buffers and states hold exactly what was written."""
from sim import core
from sim.core import Violation, sut

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 40000}
X64 = True  # every eighth run, a process in double precision
TIME_UNIT = "resource operations"
RULE = ("A run creates several buffers and states (some from the same source objects) and applies a random history of "
        "writes that fit or not, reads, resets, cursor moves, state updates (directly and through UpdateState) and "
        "mutations of the sources and results by the caller, comparing every resource with plain arrays and dictionaries "
        "after every operation. Non-trivial: at least one accepted write. Distinct: different event logs.")
STATE_MEASURE = "(operation, accepted or refused, axis, position class) combinations reached"
REAL = ["Buffer", "State", "UpdateState"]
STUB = []
ASSUMPTIONS = ["a write into a buffer starts at a non-negative offset and spans all other axes or a leading part of them"]


def gen(r, i, tier):
    bufs = []
    for _ in range(r.randint(1, 4)):
        nd = r.choice([1, 2, 2, 3, 3])
        shape = [r.choice([1, 2, 3, 5, 8]) for _ in range(nd)]
        bufs.append(dict(shape=shape, dim=r.randrange(nd), name=r.choice(["a", "a", "b", "positions"])))
    ops = []
    for _ in range(r.randint(3, 25)):
        c = r.random()
        b = r.randrange(len(bufs))
        size = bufs[b]["shape"][bufs[b]["dim"]]
        if c < 0.45:
            n = r.randint(0, size) if r.random() < 0.85 else size + r.randint(1, 3)
            start = r.choice([0, r.randint(0, size), max(0, size - n), max(0, size - n) + 1, "cursor"])
            ops.append(["write", b, n, start, r.choice(["jnp", "jnp", "np", "default"]), r.choice(["full", "full", "full", "part", "wide", "int", "nan"])])
        elif c < 0.53:
            ops.append(["reset", b])
        elif c < 0.62:
            ops.append(["cursor", b, r.randint(0, size)])
        elif c < 0.70:
            ops.append(["scribble", b])
        elif c < 0.85:
            ops.append(["state", r.randrange(3), [r.choice("xyz") for _ in range(r.randint(0, 3))], r.randint(0, 99),
                        r.choice(["direct", "strategy", "strategy_kept"])])
        elif c < 0.92:
            ops.append(["source", r.choice("xyz"), r.randint(100, 199)])
        else:
            ops.append(["hist", b])
    return dict(bufs=bufs, ops=ops)


def shrinks(scn):
    from sim.world import shrink_list
    yield from shrink_list(scn, "ops", 1)
    if len(scn["bufs"]) > 1 and all(o[1] != len(scn["bufs"]) - 1 for o in scn["ops"] if o[0] in ("write", "reset", "cursor", "scribble", "hist")):
        yield {**scn, "bufs": scn["bufs"][:-1]}


def run(scn, ctx):
    import numpy as np
    import jax.numpy as jnp
    from sim import world as W
    from flowMC.strategy.update_state import UpdateState
    g = np.random.default_rng(scn["seed"])
    bufs, model, cursors = [], [], []
    for s in scn["bufs"]:
        with sut("Buffer()"):
            b = W.Buffer(s["name"], tuple(s["shape"]), s["dim"])
        bufs.append(b)
        model.append(np.full(s["shape"], -np.inf, core.flt()))
        cursors.append(0)
    source = {"x": 1, "y": "p", "z": True}
    states = [W.State(source, name="one"), W.State(source, name="two"), W.State({"x": 5}, name="three")]
    smodel = [{"x": 1, "y": "p", "z": True}, {"x": 1, "y": "p", "z": True}, {"x": 5}]
    held = []      # arrays the caller got earlier: they must never change
    for j, op in enumerate(scn["ops"]):
        kind = op[0]
        res = ""
        if kind == "write":
            _, b, n, start, src, form = op
            s = scn["bufs"][b]
            dim = s["dim"]
            shape = list(s["shape"])
            shape[dim] = n
            if form == "part" and len(shape) > 1:
                k = (dim + 1) % len(shape)
                shape[k] = max(1, shape[k] - 1)
            if form == "wide" and len(shape) > 1:
                k = (dim + 1) % len(shape)
                shape[k] += 1
            v = g.normal(size=shape).astype(core.flt())
            if form == "nan" and v.size:
                for q in range(1 + v.size // 2):
                    v.flat[int(g.integers(v.size))] = [np.nan, -np.inf, np.inf, 0.0, 1e30][(q + j) % 5]
            st = cursors[b] if start == "cursor" else start
            if src == "default":
                st = 0
            fits = all(a <= bb for a, bb in zip(shape, s["shape"])) and st + n <= s["shape"][dim]
            arr = v if src == "np" else jnp.asarray(v)
            if form == "int":
                arr = (arr * 10).astype("int32")
            old = bufs[b].data
            held.append((old, np.array(old)))
            try:
                if src == "default":
                    bufs[b].update_buffer(arr)
                elif start == "cursor":
                    bufs[b].update_buffer(arr, start=bufs[b].cursor)
                else:
                    bufs[b].update_buffer(arr, st)
                res = "done"
            except Exception as e:
                res = "refused"
                if fits and form != "int":
                    raise Violation("refused-fitting-write", f"op {j} {op}: {n} records at {st} fit into {s}: "
                                    f"{type(e).__name__}: {str(e)[:200]}")
            if res == "done" and not fits:
                raise Violation("accepted-overflow", f"op {j} {op}: {shape} at {st} does not fit into {s} but was not refused")
            if res == "done":
                w = np.asarray(arr).astype(core.flt())
                sl = tuple(slice(st, st + n) if k == dim else slice(0, shape[k]) for k in range(len(shape)))
                model[b][sl] = w
            ctx.faults["write that does not fit"] += not fits
            ctx.probes["writes accepted"] += res == "done"
            ctx.probes["write up to the last cell"] += res == "done" and st + n == s["shape"][dim]
            ctx.state("write", res, len(shape), dim, "end" if st + n == s["shape"][dim] else "mid" if st else "start", form)
            if src == "np":
                v[...] = 777.0     # the caller reuses its array
        elif kind == "reset":
            b = op[1]
            s = scn["bufs"][b]
            bufs[b] = W.Buffer(s["name"], tuple(s["shape"]), s["dim"])
            model[b][...] = -np.inf
            cursors[b] = 0
        elif kind == "cursor":
            bufs[op[1]].cursor = op[2]
            cursors[op[1]] = op[2]
        elif kind == "scribble":   # what a read hands out is not the storage
            x = np.array(bufs[op[1]]())
            x[...] = 55.0
            y = bufs[op[1]].data.at[...].set(3.0)
            held.append((y, np.array(y)))
        elif kind == "hist":
            m = model[op[1]]
            if (np.abs(m) < 1e6).all():
                with sut("get_distribution"):
                    h, _ = bufs[op[1]].get_distribution(10)
                if h.sum() != m.size:
                    raise Violation("distribution-count", f"op {j}: {h.sum()} of {m.size} cells counted")
        elif kind == "state":
            _, k, keys, val, how = op
            keys = list(dict.fromkeys(keys))
            vals = [[val, str(val), bool(val % 2)][(val + q) % 3] for q in range(len(keys))]
            with sut(f"op {j} {op}"):
                if how == "direct":
                    states[k].update(list(keys), list(vals))
                else:
                    kk, vv = list(keys), list(vals)
                    u = UpdateState("s", kk, vv)
                    out = u(1, {"s": states[k], "other": states[(k + 1) % 3]}, 2, {})
                    if out[0] != 1 or out[2] != 2 or out[1]["s"] is not states[k]:
                        raise Violation("not-passed-through", f"op {j} {op}: UpdateState returned other things than it got")
                    if how == "strategy_kept":
                        states[k].data["x"] = 12345
                        u(1, {"s": states[k]}, 2, {})
                        smodel[k]["x"] = 12345
            smodel[k].update(zip(keys, vals))
            ctx.state("state", how, len(keys))
        elif kind == "source":
            source[op[1]] = op[2]     # the caller changes the dictionary it made states from
            ctx.faults["caller changes the source object"] += 1
        ctx.steps += 1
        for b, s in enumerate(scn["bufs"]):
            with sut("reading a buffer"):
                d, dd, sh = np.asarray(bufs[b].data), np.asarray(bufs[b]()), bufs[b].shape
            if d.dtype != core.flt() or d.shape != model[b].shape or tuple(sh) != model[b].shape or \
                    not np.array_equal(d, model[b], equal_nan=True) or not np.array_equal(dd, d, equal_nan=True):
                bad = np.argwhere(~((d == model[b]) | (np.isnan(d) & np.isnan(model[b])))) if d.shape == model[b].shape else d.shape
                raise Violation("buffer-differs", f"after op {j} {op} ({res}) buffer {b} {s} differs from the plain array at "
                                f"{bad[:3].tolist() if hasattr(bad, 'tolist') else bad}")
            if bufs[b].name != s["name"] or bufs[b].cursor_dim != s["dim"] or bufs[b].cursor != cursors[b]:
                raise Violation("buffer-meta-differs", f"after op {j} {op} buffer {b} is {bufs[b].name}/{bufs[b].cursor_dim}/"
                                f"{bufs[b].cursor}, expected {s['name']}/{s['dim']}/{cursors[b]}")
        for k in range(3):
            got = states[k].data
            if got != smodel[k] or {q: type(v) for q, v in got.items()} != {q: type(v) for q, v in smodel[k].items()}:
                raise Violation("state-differs", f"after op {j} {op} state {k} is {got}, expected {smodel[k]}")
        for a, c in held[-4:]:
            if np.asarray(a).tobytes() != c.tobytes():
                raise Violation("read-value-changed", f"op {j} {op} changed an array read from a buffer earlier")
        ctx.log(j, op, res)
