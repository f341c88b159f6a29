import jax
import jax.numpy as jnp


def mean(x, w):
    return jnp.sum(x * w[:, None], axis=0) / x.shape[0]


def same_mean(x, w):
    return jnp.einsum("ij,i->j", x, w) / len(w)


def loop_mean(x, w):
    return jax.lax.fori_loop(0, x.shape[0], lambda i, c: c + w[i] * x[i], jnp.zeros(x.shape[1])) / x.shape[0]


def wrong_mean(x, w):
    return jnp.sum(x * w[:, None], axis=0) / x.shape[1]


def wrong_index(x, w):
    return jax.lax.fori_loop(1, x.shape[0], lambda i, c: c + w[i] * x[i], jnp.zeros(x.shape[1])) / x.shape[0]


def mutated(x, w):
    return jnp.sum(x * (2 * w[:, None]), axis=0) / x.shape[0]
