"""Discrepancies between weighted data sets."""
import jax
import jax.numpy as jnp
import jax.scipy as jsp


def w_(w):
    return jnp.nan_to_num(w / jnp.sum(w))


def gram(k, x, y):
    return jax.vmap(lambda a: jax.vmap(lambda b: k.compute_elementwise(a, b))(y))(x)


def root(v):
    return jnp.sqrt(jnp.maximum(v, 0.0))


def mmd(k, x, y, w, v):
    a, b = w_(w), w_(v)
    return root(a @ gram(k, x, x) @ a + b @ gram(k, y, y) @ b - 2 * (a @ gram(k, x, y) @ b))


def jmmd(k, l, x1, y1, w1, x2, y2, w2):
    a, b = w_(w1), w_(w2)
    return root(a @ (gram(k, x1, x1) * gram(l, y1, y1)) @ a + b @ (gram(k, x2, x2) * gram(l, y2, y2)) @ b
                - 2 * (a @ (gram(k, x1, x2) * gram(l, y1, y2)) @ b))


def amcmd(k, l, lam, x1, y1, x2, y2, x3):
    a = jnp.linalg.solve(gram(k, x1, x1) + lam * jnp.eye(x1.shape[0]), gram(k, x1, x3))
    b = jnp.linalg.solve(gram(k, x2, x2) + lam * jnp.eye(x2.shape[0]), gram(k, x2, x3))
    t1 = jnp.trace(a.T @ gram(l, y1, y1) @ a)
    t2 = jnp.trace(b.T @ gram(l, y2, y2) @ b)
    t3 = jnp.trace(a.T @ gram(l, y1, y2) @ b)
    return root((t1 + t2 - 2 * t3) / x3.shape[0])


def ksd(stein, y, v):
    b = w_(v)
    return root(b @ gram(stein, y, y) @ b)


def ksd_corrected(stein, y, v, x, w, laplace, regularise, bandwidth):
    b = w_(v)
    value = b @ gram(stein, y, y) @ b
    if laplace:
        def positive(p):
            return jnp.sum(jnp.maximum(jnp.diag(jax.jacfwd(stein.score_function)(p)), 0.0))
        value = value + jnp.sum(jax.vmap(positive)(y)) / len(y) ** 2
    if regularise:
        kde = jsp.stats.gaussian_kde(x.T, weights=w, bw_method=bandwidth)
        value = value - jnp.mean(kde.logpdf(y.T)) / len(y)
    return root(value)
