"""A PRNG implementation, registered with JAX, that writes every consumption of a key into a ledger."""
import functools
import math
from collections import Counter
from contextlib import contextmanager

ENTRIES = []
_impl = None


def _note(op, what, key):
    import numpy as np
    a = np.asarray(key).reshape(-1)
    ENTRIES.append(((int(a[0]) << 32) | int(a[1]), op, what))


def _make():
    import jax
    import jax.numpy as jnp
    from jax.extend import random as er
    u = jnp.uint32

    def rec(op, what, key):
        jax.debug.callback(functools.partial(_note, op, what), key)

    def mix(h):
        h = h ^ (h >> 16)
        h = h * u(0x7FEB352D)
        h = h ^ (h >> 15)
        h = h * u(0x846CA68B)
        return h ^ (h >> 16)

    def h2(key, c):
        a = mix(c * u(0x9E3779B1) + key[0])
        b = mix(a ^ key[1])
        return mix(b + a * u(5) + key[0])

    def seed(s):
        s = jnp.asarray(s).astype(u)
        return jnp.stack([mix(s + u(0x51ED270B)), mix(s ^ u(0x9E3779B9))])

    def split(key, shape):
        rec("split", tuple(shape), key)
        n = math.prod(shape)
        return h2(key, jnp.arange(2 * n, dtype=u) + u(0x40000000)).reshape(*shape, 2)

    def bits(key, width, shape):
        rec("draw", (width,) + tuple(shape), key)
        n = math.prod(shape)
        return h2(key, jnp.arange(n, dtype=u)).astype({8: jnp.uint8, 16: jnp.uint16, 32: u}[width]).reshape(shape)

    def fold(key, d):
        jax.debug.callback(lambda k, v: _note("fold", (int(v),), k), key, d)
        d = jnp.asarray(d).astype(u)
        return jnp.stack([h2(key, d + u(0x80000000)), h2(key, d + u(0xC0000000))])

    return er.define_prng_impl(key_shape=(2,), seed=seed, split=split, random_bits=bits, fold_in=fold,
                               name="ledgerprng", tag="led")


_real_key = None


def key(seed):
    global _impl, _real_key
    import jax
    if _real_key is None:
        _real_key = jax.random.key
    if _impl is None:
        _impl = _make()
    return _real_key(seed & 0x7FFFFFFF, impl=_impl)


@contextmanager
def recording():
    """Every key made or consumed inside goes through the ledger, also keys that flowMC makes up itself."""
    import jax
    key(0)
    ENTRIES.clear()
    old = jax.random.PRNGKey, jax.random.key
    jax.random.PRNGKey = lambda s, **kw: key(int(s))
    jax.random.key = lambda s, **kw: key(int(s))
    try:
        yield
    finally:
        jax.random.PRNGKey, jax.random.key = old


def entries():
    import jax
    jax.effects_barrier()
    return list(ENTRIES)


def reused(entries, twice_ok=()):
    """Keys consumed more than once: (key, [(op, what)...]). A key may be consumed by one split, or one draw, or by
    fold_in with different numbers. twice_ok: draws that may be made a second time with the same key and shape."""
    by = {}
    for k, op, what in entries:
        by.setdefault(k, Counter())[(op, what)] += 1
    out = []
    for k, c in by.items():
        if len(c) == 1:
            (op, what), n = next(iter(c.items()))
            if n == 1 or (n == 2 and op == "draw" and what in twice_ok):
                continue
        elif all(op == "fold" for op, _ in c) and max(c.values()) == 1:
            continue
        out.append((k, dict(c)))
    return out
