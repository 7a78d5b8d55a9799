"""Building blocks of simulated worlds: stub kernels and flows, spies, small targets.

Imported only after core.setup_jax().
"""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.base import ProposalBase
from flowMC.resource.logPDF import LogPDF, TemperedPDF
from flowMC.resource.model.nf_model.base import NFModel
from flowMC.resource.states import State
from flowMC.strategy.base import Strategy

from sim import core


class _Unsaved:
    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class CounterKernel(_Unsaved, ProposalBase):
    """Every step adds one to coordinate 0; the flag is a function of the count."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        position = position.at[0].add(1.0)
        return position, logpdf(position, data), (position[0] % 3) != 0


class CounterGroupKernel(_Unsaved, ProposalBase):
    """The same for a kernel that takes all steps at once."""
    model: NFModel | None = None

    def __init__(self, model=None):
        self.model = model

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        n = data["n_steps"]
        positions = jnp.repeat(position[None], n, axis=0)
        positions = positions.at[:, 0].add(jnp.arange(1, n + 1))
        return (positions, jax.vmap(logpdf, in_axes=(0, None))(positions, data),
                (positions[:, 0] % 3) != 0)


def key_words(key):
    """The bits of a key as four exact small floats."""
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    key = key.reshape(-1)[:2]
    return jnp.stack([key[0] >> 16, key[0] & 0xFFFF, key[1] >> 16, key[1] & 0xFFFF]).astype(jnp.float32)


def key_ints(words):
    """Inverse of key_words on recorded rows (..., 4): an integer per key."""
    w = np.asarray(words, dtype=np.float64).astype(np.int64).reshape(-1, 4)
    return ((w[:, 0] << 48) | (w[:, 1] << 32) | (w[:, 2] << 16) | w[:, 3]).astype(object)


def raw_key_int(key):
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    a = np.asarray(key).reshape(-1)
    return (int(a[0]) << 32) | int(a[1])


class KeyKernel(_Unsaved, ProposalBase):
    """The new position is the key the kernel was given."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        return key_words(rng_key), jnp.asarray(0.0), jnp.asarray(True)


class TinyFlow(NFModel):
    """A diagonal Gaussian as the smallest trainable flow (real NFModel training code)."""
    mu: jax.Array
    log_sigma: jax.Array
    _n_features: int
    _data_mean: jax.Array
    _data_cov: jax.Array

    def __init__(self, n_features, mu=None, log_sigma=None):
        self._n_features = n_features
        self.mu = jnp.zeros(n_features) if mu is None else jnp.asarray(mu, core.flt())
        self.log_sigma = jnp.zeros(n_features) if log_sigma is None else jnp.asarray(log_sigma, core.flt())
        self._data_mean = jnp.zeros(n_features)
        self._data_cov = jnp.eye(n_features)

    def forward(self, x, key=None):
        return (x - self.mu) * jnp.exp(-self.log_sigma), -jnp.sum(self.log_sigma)

    def inverse(self, x):
        return x * jnp.exp(self.log_sigma) + self.mu, jnp.sum(self.log_sigma)

    def log_prob(self, x):
        z, ld = self.forward(x)
        return ld - 0.5 * jnp.sum(z**2) - 0.5 * self._n_features * jnp.log(2 * jnp.pi)

    def sample(self, rng_key, n_samples):
        return self.mu + jnp.exp(self.log_sigma) * jax.random.normal(rng_key, (n_samples, self._n_features))

    def print_parameters(self):
        pass


class Spy(Strategy):
    """Delegates to a real strategy and tells the simulator before and after."""

    def __init__(self, name, inner, before=None, after=None):
        self.name, self.inner, self.before, self.after = name, inner, before, after

    def __call__(self, rng_key, resources, initial_position, data):
        if self.before:
            self.before(self.name, rng_key, resources, initial_position, data)
        out = self.inner(rng_key, resources, initial_position, data)
        if self.after:
            self.after(self.name, (rng_key, resources, initial_position, data), out)
        return out


def spy_all(sampler, before=None, after=None):
    sampler.strategies = {k: Spy(k, s, before, after) for k, s in sampler.strategies.items()}


def snap(x):
    """An independent numpy copy of an array."""
    return np.array(x)


def snap_resources(resources):
    """Deep copies of everything observable in a resource dict."""
    out = {}
    for k, r in resources.items():
        if isinstance(r, Buffer):
            out[k] = ("buffer", str(r.name), np.array(r.data), int(r.cursor), int(r.cursor_dim))
        elif isinstance(r, State):
            out[k] = ("state", r.name, dict(r.data))
        elif hasattr(r, "optim_state"):
            out[k] = ("optim", [np.array(v) for v in jax.tree_util.tree_leaves(r.optim_state)])
        else:
            leaves = [np.array(v) if eqx.is_array(v) else v for v in jax.tree_util.tree_leaves(r)
                      if not callable(v)]
            out[k] = (type(r).__name__, leaves)
    return out


def same(a, b):
    """Bitwise equality of snapshots (NaN equal to NaN)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def diff_resources(a, b):
    return sorted([k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k])])


# ---------------------------------------------------------------- generic shrinking helpers
def shrink_list(scn, field, min_len=0):
    """Candidates with chunks of scn[field] removed (ddmin order: big chunks first)."""
    xs = scn[field]
    n = len(xs)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            ys = xs[:s] + xs[s + size:]
            if len(ys) >= min_len and len(ys) < n:
                yield {**scn, field: ys}
        size //= 2


def shrink_int(scn, path, lo):
    """Candidates with a smaller integer at a (nested) path."""
    node = scn
    for k in path[:-1]:
        node = node[k]
    v = node[path[-1]]
    if not isinstance(v, int) or isinstance(v, bool):
        return
    for c in dict.fromkeys([lo, (v + lo) // 2, v - 1]):
        if lo <= c < v:
            yield set_path(scn, path, c)


def set_path(scn, path, val):
    import copy
    out = copy.deepcopy(scn)
    node = out
    for k in path[:-1]:
        node = node[k]
    node[path[-1]] = val
    return out


def settings(strategy):
    """A strategy's settings (its constructor's parameters) and how far it has come; no private bookkeeping."""
    import inspect
    names = set(inspect.signature(type(strategy).__init__).parameters) | {"current_position"}
    return {k: v for k, v in vars(strategy).items() if k in names}
