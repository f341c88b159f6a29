"""Containers."""
import jax.numpy as jnp


def column(v):
    return v[:, None]


def cell(v):
    return v[None, None]


def ones(x):
    return jnp.ones(x.shape[0])


def constant(x, c):
    return jnp.ones(x.shape[0]) * c


def getitem(x, key):
    return x[key]


def rows(x, idx):
    return x[idx]


def length(x):
    return len(x)


def as_array(x):
    return jnp.asarray(x)


def hstack(a, b):
    return jnp.concatenate([a, b], axis=1)


def normalised_weights(w, preserve_zeros):
    v = w / jnp.sum(w)
    if preserve_zeros:
        return jnp.nan_to_num(v)
    return v
