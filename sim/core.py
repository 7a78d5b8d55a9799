"""Simulator core: violations, run context, scenario randomness, seams shared by all properties."""
import hashlib
import json
import os
import random
import sys
import traceback
from collections import Counter
from contextlib import contextmanager

REPLICA = 0      # 1 in the process that repeats runs
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """A property of flowMC does not hold in this run."""

    def __init__(self, kind, msg, **detail):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail


X64 = False  # is this process one in double precision?


def flt():
    """The float type of this process."""
    import numpy as np
    return np.float64 if X64 else np.float32


def eps():
    """How much larger than in single precision rounding errors may be."""
    return 1e-6 if X64 else 1.0


class Injected(Exception):
    """A fault raised by the simulator."""


def derive(*parts):
    """A 63 bit integer that depends on all parts; the only way seeds are made."""
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def flag(scn, name, one_in=4):
    """A switch of this run that is on in one of so many runs."""
    return derive(scn["seed"], name) % one_in == 0


def rng_for(*parts):
    return random.Random(derive(*parts))


class Ctx:
    """What one simulated run records about itself."""

    def __init__(self):
        self.events = []          # the event log (JSON-able tuples)
        self.faults = Counter()   # fault kinds that actually fired
        self.probes = Counter()   # rare conditions that were reached
        self.steps = 0            # simulated time (MCMC steps / strategy calls / disk ops)
        self.states = set()       # hashes of distinct abstract states / interleavings

    def log(self, *ev):
        self.events.append(ev)

    def state(self, *parts):
        self.states.add(derive(*parts) & 0xFFFFFFFF)

    def digest(self):
        return hashlib.sha256(json.dumps(self.events, default=_enc).encode()).hexdigest()[:24]


def _enc(o):
    import numpy as np
    if isinstance(o, bytes):
        return hashlib.sha256(o).hexdigest()[:16]
    if hasattr(o, "dtype"):
        a = np.asarray(o)
        return [str(a.dtype), list(a.shape), hashlib.sha256(a.tobytes()).hexdigest()[:16]]
    return str(o)


def fingerprint(x):
    """Hash of a pytree / resource of arrays and plain values (bitwise)."""
    return hashlib.sha256(json.dumps(_plain(x), default=_enc, sort_keys=True).encode()).hexdigest()[:16]


def _plain(x):
    import numpy as np
    import jax
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
        return _enc(np.asarray(jax.random.key_data(x)))
    if hasattr(x, "dtype"):
        return _enc(np.asarray(x))
    leaves = jax.tree_util.tree_leaves(x)
    if len(leaves) == 1 and leaves[0] is x:
        return type(x).__name__
    return [_plain(v) for v in leaves]


@contextmanager
def sut(what):
    """Code under test that must not raise: an exception out of flowMC is a violation."""
    try:
        yield
    except (Violation, Injected):
        raise
    except Exception as e:
        if from_repo(e):
            raise Violation("unexpected-exception", f"{what}: {type(e).__name__}: {str(e)[:300]}",
                            exc=type(e).__name__) from e
        raise


def from_repo(e):
    """Did this exception pass through flowMC's own code?"""
    src = os.path.join(os.path.realpath(REPO), "src", "flowMC")
    tb = e.__traceback__
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(src):
            return True
    return False


@contextmanager
def quiet():
    """flowMC prints a lot; nothing of it is part of a run."""
    sys.stdout.flush()
    old = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(old, 1)
        os.close(old)
        os.close(null)


def setup_jax(x64=False):
    """Deterministic, single-threaded JAX from /repo's working tree."""
    global X64
    X64 = bool(x64)
    os.environ["JAX_ENABLE_X64"] = "1" if x64 else "0"
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    import jax
    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import flowMC.Sampler as S
    real = os.path.realpath(S.__file__)
    assert real.startswith(os.path.realpath(src)), real
    import warnings
    warnings.filterwarnings("ignore")
    return jax


# ---- the simulator's own PRNG, registered with JAX (cheaper to compile than threefry) ----
_sim_impl = None


def sim_key(seed):
    """A typed JAX key backed by the simulator's PRNG implementation."""
    global _sim_impl
    import jax
    if _sim_impl is None:
        _sim_impl = _make_impl()
    return jax.random.key(seed & 0x7FFFFFFF, impl=_sim_impl)


def _make_impl():
    import math
    import jax.numpy as jnp
    from jax.extend import random as er
    u = jnp.uint32

    def mix(h):
        h = h ^ (h >> 16)
        h = h * u(0x7FEB352D)
        h = h ^ (h >> 15)
        h = h * u(0x846CA68B)
        return h ^ (h >> 16)

    def h2(key, c):
        a = mix(c * u(0x9E3779B1) + key[0])
        b = mix(a ^ key[1])
        return mix(b + a * u(5) + key[0])

    def seed(s):
        s = jnp.asarray(s).astype(u)
        return jnp.stack([mix(s + u(0x51ED270B)), mix(s ^ u(0x9E3779B9))])

    def split(key, shape):
        n = math.prod(shape)
        return h2(key, jnp.arange(2 * n, dtype=u) + u(0x40000000)).reshape(*shape, 2)

    def bits(key, width, shape):
        n = math.prod(shape)
        out = h2(key, jnp.arange(n, dtype=u))
        if width == 64:
            lo = h2(key, jnp.arange(n, 2 * n, dtype=u))
            return ((out.astype(jnp.uint64) << 32) | lo.astype(jnp.uint64)).reshape(shape)
        return out.astype({8: jnp.uint8, 16: jnp.uint16, 32: u}[width]).reshape(shape)

    def fold(key, d):
        d = jnp.asarray(d).astype(u)
        return jnp.stack([h2(key, d + u(0x80000000)), h2(key, d + u(0xC0000000))])

    return er.define_prng_impl(key_shape=(2,), seed=seed, split=split, random_bits=bits,
                               fold_in=fold, name="simprng", tag="sim")


def make_key(seed, impl="threefry"):
    import jax
    return sim_key(seed) if impl == "sim" else jax.random.PRNGKey(seed & 0x7FFFFFFF)
