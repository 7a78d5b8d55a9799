"""Random worlds of real kernels over targets with fault regions, shared by several properties."""
import math

from sim import core


def with_user_data(f, C, d, seed):
    """The density also depends on user data of all shapes, some of which look like chains, steps or dimensions."""
    import numpy as np
    import jax
    import jax.numpy as jnp
    g = np.random.default_rng(seed % 2**32)
    a = lambda *sh: jnp.asarray(g.normal(size=sh), core.flt())
    user = {"per_chain": a(C), "table": a(C, d), "per_dim": a(d), "nested": (a(C, 2), {"counts": jnp.arange(C + 1), "one": a(1)}),
            "flags": jnp.asarray(g.random(max(C, 2)) < 0.5), "plain": 2}

    def h(x, data):
        tot = sum(jnp.sum(v * jnp.cos(1.0 + jnp.arange(jnp.size(v)).reshape(jnp.shape(v)))) for v in
                  jax.tree_util.tree_leaves(data["user"]))
        return f(x, data) + (0.3 * jnp.tanh(jnp.sum(x)) * jnp.tanh(tot)).astype(x.dtype)
    return h, user


def gen_kernel(r):
    k = r.choice(["grw", "mala", "mala", "hmc", "hmc"])
    s = dict(kind=k, step=r.choice([0.2, 0.5, 1.0, 1.5]))
    if k == "hmc":
        s.update(metric=r.choice(["one", "scalar", "diag", "dense"]), leap=r.choice([1, 2, 4]), mseed=r.randint(0, 999),
                 step=r.choice([0.2, 0.4, 0.7]))
    return s


def gen_flow(r, d, faulty=False):
    kinds = ["tiny", "tiny", "tiny", "spline"] + (["realnvp"] if d > 1 else [])
    f = dict(kind=r.choice(kinds), seed=r.randint(0, 999), noise=r.choice([0.0, 0.3]), white=r.random() < 0.5,
             nf_batch=r.choice([1, 2, 3, 100]))
    if faulty and f["kind"] == "tiny":
        f["fault"] = r.choice(["", "lp_nan", "lp_inf", "lp_ninf", "sample_nan", "sample_inf"])
        f["fseed"] = r.randint(0, 10**6)
        f["frate"] = r.choice([0.1, 0.4, 0.8])
    return f


def gen_void(r):
    """Where and how the density fails."""
    kind = r.choice(["none", "half", "ball", "cells", "cells", "outside"])
    return dict(kind=kind, out=r.choice(["nan", "ninf"]), seed=r.randint(0, 10**6), rate=r.choice([0.1, 0.3, 0.6, 0.9]),
                size=r.choice([0.3, 0.8, 1.5]), grad=r.choice(["zero", "zero", "nan"]))


def hash_cells(x, size, seed):
    """Pseudo-random number in [0, 1) of the grid cell x lies in."""
    import jax.numpy as jnp
    c = jnp.floor(x * core.flt()(1.0 / size))
    c = jnp.where(jnp.abs(c) < 1e6, c, 1e6).astype(jnp.int32).astype(jnp.uint32)
    h = jnp.uint32(seed * 2654435761 & 0xFFFFFFFF)
    for i in range(x.shape[-1]):
        h = (h ^ c[..., i]) * jnp.uint32(0x7FEB352D)
        h = h ^ (h >> 15)
        h = h * jnp.uint32(0x846CA68B)
        h = h ^ (h >> 13)
    return (h >> 8).astype(core.flt()) / 2**24


def in_void(v, x):
    import jax.numpy as jnp
    if v["kind"] == "none":
        return jnp.asarray(False)
    if v["kind"] == "half":
        return x[0] > v["size"]
    if v["kind"] == "ball":
        return jnp.sum(x**2) < v["size"] ** 2
    if v["kind"] == "outside":
        return jnp.sum(x**2) > (2 * v["size"] + 0.5) ** 2
    return hash_cells(x, v["size"], v["seed"]) < v["rate"]


def with_void(f, v):
    """f, but undefined in the void: data['bad'] carries the value (NaN or -inf) it takes there."""
    import jax.numpy as jnp
    if v["kind"] == "none":
        return f

    def g(x, data):
        bad = in_void(v, x)
        val = f(x, data)
        if v["grad"] == "nan":      # the failing branch is reached by differentiation too
            return val + jnp.where(bad, data["bad"] * (1.0 + 0.0 * jnp.sum(x)), 0.0)
        return jnp.where(bad, data["bad"], val)
    return g


def make_fault_flow(s, d):
    """A diagonal Gaussian whose density or samples fail pseudo-randomly."""
    import jax.numpy as jnp
    from sim import world as W

    class FaultFlow(W.TinyFlow):
        def log_prob(self, x):
            lp = W.TinyFlow.log_prob(self, x)
            bad = hash_cells(x, 0.5, s["fseed"]) < s["frate"]
            val = {"lp_nan": jnp.nan, "lp_inf": jnp.inf, "lp_ninf": -jnp.inf}.get(s["fault"])
            return lp if val is None else jnp.where(bad, val, lp)

        def sample(self, rng_key, n_samples):
            x = W.TinyFlow.sample(self, rng_key, n_samples)
            val = {"sample_nan": jnp.nan, "sample_inf": jnp.inf}.get(s["fault"])
            if val is None:
                return x
            bad = hash_cells(x, 0.5, s["fseed"]) < s["frate"]
            return x.at[:, 0].set(jnp.where(bad, val, x[:, 0]))
    return FaultFlow(d, jnp.zeros(d) + 0.1, jnp.zeros(d) + 0.2)


def check_records(Vio, what, P, L, A, start, lp_of, serial=True):
    """Every record of an unthinned call is self-consistent. P (C,n,d), L (C,n), A (C,n), start (C,d);
    lp_of maps positions (m,d) to the target's log densities. Raises Vio(kind, msg). Returns #accepts, #rejects."""
    import numpy as np
    C, n, d = P.shape
    want = lp_of(P.reshape(-1, d)).reshape(C, n)
    lp0 = lp_of(start)
    tol = (1e-3 + 3e-5 * np.abs(np.where(np.isfinite(want), want, 0))) * core.eps()
    bad = ~((np.abs(L - want) <= tol) | (np.isnan(L) & np.isnan(want)) | (L == want))
    if bad.any():
        c, k = np.argwhere(bad)[0]
        raise Vio("log-density-mismatch", f"{what}: chain {c} step {k}: recorded {L[c, k]}, the target at the recorded "
                  f"position {P[c, k].tolist()} is {want[c, k]}")
    if not np.isin(A, [0.0, 1.0]).all():
        raise Vio("flag-not-boolean", f"{what}: acceptance flags {np.unique(A)[:5].tolist()}")
    prevP = np.concatenate([start[:, None], P[:, :-1]], axis=1)
    prevL = np.concatenate([lp0[:, None], L[:, :-1]], axis=1)
    acc = A == 1
    same = (P == prevP) | (np.isnan(P) & np.isnan(prevP))
    moved = ~same.all(-1)
    if (~acc & moved).any():
        c, k = np.argwhere(~acc & moved)[0]
        raise Vio("rejected-but-moved", f"{what}: chain {c} step {k} flagged rejected, moved {prevP[c, k].tolist()} -> "
                  f"{P[c, k].tolist()}")
    if (acc & ~moved).any():
        c, k = np.argwhere(acc & ~moved)[0]
        raise Vio("accepted-but-stayed", f"{what}: chain {c} step {k} flagged accepted but the position is unchanged "
                  f"{P[c, k].tolist()}")
    # repeated exactly, but for the rounding of code that evaluates the density at the same place again
    rej_lp = ~acc & ~((np.abs(L - prevL) <= 0.03 * tol) | (L == prevL) | (np.isnan(L) & np.isnan(prevL)))
    rej_lp[:, 0] = False   # the start's log density is not recorded; covered by log-density-mismatch
    if rej_lp.any():
        c, k = np.argwhere(rej_lp)[0]
        raise Vio("rejected-log-density-changed", f"{what}: chain {c} step {k} rejected, log density {prevL[c, k]!r} -> "
                  f"{L[c, k]!r}")
    return int(acc.sum()), int((~acc).sum())


def box_start(n, d, g, spread=1.0):
    import numpy as np
    return (g.normal(size=(n, d)) * spread).astype(core.flt())


def good_start(logpdf_v, n, d, g, spread=1.0, tries=60):
    """n positions with finite log density (or None)."""
    import numpy as np
    x = box_start(n * tries, d, g, spread)
    lp = np.asarray(logpdf_v(x))
    ok = x[np.isfinite(lp)]
    return ok[:n] if len(ok) >= n else None
