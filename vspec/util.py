"""Utilities."""
import jax
import jax.numpy as jnp
import jax.random as jr


def table(f, x, y):
    return jax.vmap(lambda a: jax.vmap(lambda b: f(a, b))(y))(x)


def single(f, x, y):
    return f(x, y)[None, None]


def sqdist(x, y):
    return jnp.sum((x - y) ** 2)


def diff(x, y):
    return x - y


def as_vector(x):
    return jnp.reshape(x, (1,))


def row(x):
    return x[None, :]


def pad(x, k):
    return jnp.concatenate([x, jnp.zeros((k,) + x.shape[1:])])


def threshold(x, t):
    t = abs(t)
    if x < 0:
        if x > -t:
            return 0.0
        return x
    return x


def batches(key, n, b, k):
    keys = jr.split(key, k)
    return jnp.stack([jr.permutation(keys[i], n)[:b] for i in range(k)])


def batches_vmap(key, n, b, k):
    return jax.vmap(lambda q: jr.permutation(q, n)[:b])(jr.split(key, k))
