"""Approximate Gramian row means: least-squares regression of kernel means on kernel features."""
import jax
import jax.numpy as jnp
import jax.random as jr


def gram(k, x, y):
    return jax.vmap(lambda a: jax.vmap(lambda b: k.compute_elementwise(a, b))(y))(x)


def regress(key, x, features, m, target):
    rows = jr.choice(key, x.shape[0], (m,), replace=False)
    return features @ jnp.linalg.lstsq(features[rows], target(x[rows]))[0]


def monte_carlo(k, key, x, f, m):
    cols = jr.choice(key, x.shape[0], (f - 1,), replace=False)
    return regress(key, x, gram(k, x, x[cols]), m, lambda t: jnp.mean(gram(k, x, t), axis=0))


def nystrom(k, key, x, f, m):
    cols = jr.choice(key, x.shape[0], (f,), replace=False)
    return regress(key, x, gram(k, x, x[cols]), m, k.gramian_row_mean)


def annchor(k, key, x, f, m):
    n = x.shape[0]
    first = gram(k, x, x[:1])[:, 0]
    features = jnp.zeros((n, f)).at[:, 0].set(first)
    def body(j, feats):
        far = jnp.argmin(jnp.max(feats, axis=1))
        return feats.at[:, j].set(jax.vmap(lambda a: k.compute_elementwise(a, x[far]))(x))
    return regress(key, x, jax.lax.fori_loop(1, f, body, features), m, lambda t: jnp.mean(gram(k, x, t), axis=0))


def column(v):
    return v[:, None]
