"""Evaluation of kernels on data."""
import jax
import jax.numpy as jnp


def pairwise(f, x, y):
    return jax.vmap(lambda a: jax.vmap(lambda b: f(a, b))(y))(x)


def as_single0(v):
    return v[None, None]


def as_single1(v):
    return v[None, None, :]


def ones(x):
    return jnp.ones(x.shape[0])


def normalise(w):
    return w / jnp.sum(w)


def mean(f, x, y, wx, wy, axis):
    k = pairwise(f, x, y)
    wx, wy = jnp.nan_to_num(normalise(wx)), jnp.nan_to_num(normalise(wy))
    if axis is None:
        return jnp.sum(wx[:, None] * k * wy[None, :])
    if axis == 0:
        return jnp.sum(wx[:, None] * k, axis=0)
    return jnp.sum(k * wy[None, :], axis=1)
