"""Targets with an exact sampler, so that an ensemble can start distributed as the target."""
import math
import random

import jax
import jax.numpy as jnp
import numpy as np

from sim import core


def gen_target(r, d, kinds=None):
    kind = r.choice(kinds or ["gauss", "gauss", "skew", "mix", "halfexp", "trunc", "banana", "box"])
    return dict(kind=kind, d=d, seed=r.randint(0, 10**6), spread=r.choice([0.5, 1.0, 1.0, 2.0]))


def offset(seed):
    """Log densities are known up to a constant only; this is the constant of a target."""
    return [0.0, -300.0, 150.0][core.derive(seed, "offset") % 3]


def shifted(f, c):
    return (lambda x, data: f(x, data) + c) if c else f


class Target:
    """logpdf(x, data), data, sample(n, rng) and a rough scale."""

    def __init__(self, spec):
        d, kind = spec["d"], spec["kind"]
        g = np.random.default_rng(spec["seed"])
        s = spec["spread"]
        self.d, self.kind = d, kind
        A = np.eye(d) + 0.5 * np.tril(g.normal(size=(d, d)), -1)
        A *= s * np.exp(0.3 * g.normal(size=(d, 1)))
        m = g.normal(size=d)
        Ai = np.linalg.inv(A)
        self.data = {"mean": jnp.asarray(m, core.flt()), "w": jnp.asarray(1.0)}
        Aj = jnp.asarray(Ai, core.flt())
        if kind == "gauss":
            self.logpdf = lambda x, data: -0.5 * data["w"] * jnp.sum((Aj @ (x - data["mean"])) ** 2)
            self.sample = lambda n, q: m + q.normal(size=(n, d)) @ A.T
        elif kind == "skew":
            eps, dl = 0.4, 1.3

            def lp(x, data):
                y = Aj @ (x - data["mean"])
                t = dl * jnp.arcsinh(y) - eps
                z = jnp.sinh(t)
                return jnp.sum(-0.5 * z**2 + jnp.log(jnp.cosh(t)) - 0.5 * jnp.log1p(y**2)) * data["w"]
            self.logpdf = lp
            self.sample = lambda n, q: m + np.sinh((np.arcsinh(q.normal(size=(n, d))) + eps) / dl) @ A.T
        elif kind == "mix":
            K = 2
            mus = g.normal(size=(K, d)) * 1.2 * s
            sg = s * np.exp(0.3 * g.normal(size=(K, 1))) * 0.7
            lw = np.log(np.array([0.35, 0.65]))
            jm, js = jnp.asarray(mus, core.flt()), jnp.asarray(sg, core.flt())
            jw = jnp.asarray(lw, core.flt())
            self.data = {"mean": jnp.asarray(m, core.flt()), "w": jnp.asarray(1.0)}

            def lp(x, data):
                q = (x - data["mean"] - jm) / js
                return data["w"] * jax.scipy.special.logsumexp(jw - 0.5 * jnp.sum(q**2, -1) - d * jnp.log(js[:, 0]))
            self.logpdf = lp

            def sample(n, q):
                k = (q.random(n) > 0.35).astype(int)
                return m + mus[k] + sg[k] * q.normal(size=(n, d))
            self.sample = sample
        elif kind == "halfexp":   # exponential in every coordinate, hard boundary at the origin
            def lp(x, data):
                y = (x - data["mean"]) / s
                ok = jnp.all(y > 0)
                return jnp.where(ok, -jnp.sum(jnp.where(y > 0, y, 1.0)) * data["w"], -jnp.inf)
            self.logpdf = lp
            self.sample = lambda n, q: m + s * np.maximum(q.exponential(size=(n, d)), 1e-4)
        elif kind == "box":       # uniform in a box, undefined (NaN) outside
            def lp(x, data):
                y = (x - data["mean"]) / s
                return jnp.where(jnp.all(jnp.abs(y) < 1), jnp.sum(y) * 0.7 * data["w"], jnp.nan)
            self.logpdf = lp

            def sample(n, q):     # density ~ exp(0.7 y) on (-1, 1)
                u = q.uniform(1e-4, 1 - 1e-4, size=(n, d))
                a = 0.7
                return m + s * np.log(np.exp(-a) + u * (np.exp(a) - np.exp(-a))) / a
            self.sample = sample
        elif kind == "trunc":     # Gaussian cut at its first coordinate
            def lp(x, data):
                y = (x - data["mean"]) / s
                return jnp.where(y[0] > 0, -0.5 * jnp.sum(y**2) * data["w"], -jnp.inf)
            self.logpdf = lp

            def sample(n, q):
                z = q.normal(size=(n, d))
                z[:, 0] = np.maximum(np.abs(z[:, 0]), 1e-4)
                return m + s * z
            self.sample = sample
        elif kind == "banana":
            b = 0.4

            def lp(x, data):
                y = (x - data["mean"]) / s
                if d == 1:
                    return -0.5 * jnp.sum(y**2) * data["w"]
                return data["w"] * (-0.5 * y[0] ** 2 - 0.5 * jnp.sum((y[1:] - b * (y[0] ** 2 - 1)) ** 2))
            self.logpdf = lp

            def sample(n, q):
                z = q.normal(size=(n, d))
                if d > 1:
                    z[:, 1:] += b * (z[:, :1] ** 2 - 1)
                return m + s * z
            self.sample = sample
        else:
            raise KeyError(kind)
        self.hard = kind in ("halfexp", "box", "trunc")
        self.logpdf = shifted(self.logpdf, offset(spec["seed"]))


class TemperedTarget:
    """A likelihood and a prior whose every tempered product has an exact sampler."""

    def __init__(self, spec):
        d, g = spec["d"], np.random.default_rng(spec["seed"])
        self.d = d
        self.flat_prior = spec["flat_prior"]
        if d == 1 and spec["bimodal"]:
            a, sg, ps = 1.5 + g.random(), 0.5, 2.0
            sh = g.normal() * 0.3
            self.data = {"a": jnp.asarray(a, core.flt()), "sh": jnp.asarray(sh, core.flt())}

            def ll(x, data):
                return jnp.logaddexp(-0.5 * ((x[0] - data["a"]) / sg) ** 2, math.log(0.5) - 0.5 * ((x[0] + data["a"]) / sg) ** 2)

            def lpr(x, data):
                return -0.5 * ((x[0] - data["sh"]) / ps) ** 2
            grid = np.linspace(-16, 16, 64001)
            L = np.logaddexp(-0.5 * ((grid - a) / sg) ** 2, np.log(0.5) - 0.5 * ((grid + a) / sg) ** 2)
            Pr = -0.5 * ((grid - sh) / ps) ** 2
            if self.flat_prior:
                L, Pr = L + Pr, 0 * Pr
                ll0, lpr0 = ll, lpr
                ll = lambda x, data: ll0(x, data) + lpr0(x, data)
                lpr = lambda x, data: 0.0

            def sample(T, n, q):
                w = np.exp((lw := L / T + Pr) - lw.max())
                c = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2)])
                return np.interp(q.random(n), c / c[-1], grid)[:, None]
            self.log_likelihood, self.log_prior, self.sample = ll, lpr, sample
        else:
            B = g.normal(size=(d, d)) * 0.3 + np.eye(d)
            PL = B @ B.T
            mL, mP = g.normal(size=d), g.normal(size=d) * 0.5
            sP = 1.5
            self.data = {"m": jnp.asarray(mL, core.flt()), "mp": jnp.asarray(mP, core.flt())}
            PLj = jnp.asarray(PL, core.flt())
            self.log_likelihood = lambda x, data: -0.5 * (x - data["m"]) @ PLj @ (x - data["m"])
            if self.flat_prior:
                self.log_prior = lambda x, data: 0.0
            else:
                self.log_prior = lambda x, data: -0.5 * jnp.sum((x - data["mp"]) ** 2) / sP**2

            def sample(T, n, q):
                P0 = 0 * np.eye(d) if self.flat_prior else np.eye(d) / sP**2
                P = PL / T + P0
                mu = np.linalg.solve(P, PL @ mL / T + P0 @ mP)
                return mu + q.normal(size=(n, d)) @ np.linalg.cholesky(np.linalg.inv(P)).T
            self.sample = sample
        self.log_likelihood = shifted(self.log_likelihood, offset(spec["seed"]))

    def posterior(self):
        ll, lp = self.log_likelihood, self.log_prior
        return lambda x, data: ll(x, data) + lp(x, data)


class Battery:
    """Bounded test functions; compares an ensemble with its own start, chain by chain."""

    def __init__(self, x0, seed, n_fun=24):
        q = np.random.default_rng(seed)
        x0 = np.asarray(x0, np.float64)
        self.mu, self.sd = x0.mean(0), x0.std(0) + 1e-12
        d = x0.shape[1]
        self.W = q.normal(size=(n_fun, d)) * q.choice([0.5, 1.0, 2.0, 3.0], size=(n_fun, 1)) / math.sqrt(d)
        self.b = q.uniform(0, 2 * np.pi, n_fun)
        self.c = q.uniform(-1.5, 1.5, d)
        self.g0 = self.eval(x0)

    def eval(self, x):
        y = (np.asarray(x, np.float64) - self.mu) / self.sd
        out = [np.sin(y @ self.W.T + self.b), np.tanh(y), np.tanh(y) ** 2, (y < self.c) * 1.0, np.tanh(3 * (np.abs(y) - 1.5))]
        d = y.shape[1]
        for i in range(d):
            for j in range(i):
                out.append((np.tanh(y[:, i]) * np.tanh(y[:, j]))[:, None])
        return np.concatenate(out, axis=1)

    def worst(self, x):
        """Largest |z| of the paired differences (0 where too few chains moved)."""
        D = self.eval(x) - self.g0
        n = len(D)
        moved = (D != 0).sum(0)
        sd = D.std(0)
        z = np.where((moved >= 400) & (sd > 0), D.mean(0) / np.maximum(sd, 1e-300) * math.sqrt(n), 0.0)
        k = int(np.argmax(np.abs(z)))
        return float(z[k]), k
