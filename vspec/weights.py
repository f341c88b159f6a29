"""Weight optimisation and least squares."""
import jax
import jax.numpy as jnp
import jax.random as jr
from jaxopt import OSQP


def gram(k, x, y):
    return jax.vmap(lambda a: jax.vmap(lambda b: k.compute_elementwise(a, b))(y))(x)


def system(k, x, c, eps):
    return jnp.sum(gram(k, x, c), axis=0) / x.shape[0], gram(k, c, c) + eps * jnp.eye(c.shape[0])


def sbq(k, x, c, eps):
    z, g = system(k, x, c, eps)
    return jnp.linalg.solve(g, z)


def simplex_qp(g, z):
    n = g.shape[0]
    sol = OSQP().run(params_obj=(g, -z), params_eq=(jnp.ones((1, n)), jnp.array([1.0])),
                     params_ineq=(-jnp.eye(n), jnp.zeros(n))).params
    p = jnp.maximum(sol.primal, 0.0)
    return p / jnp.sum(p)


def mmd(k, x, c, eps):
    z, g = system(k, x, c, eps)
    return simplex_qp(g, z)


def min_norm(a, lam, t, e, rcond):
    return jnp.linalg.lstsq(a + jnp.abs(lam) * e, t, rcond=rcond)[0]


def range_finder(key, a, k, p):
    q = jnp.linalg.qr(a @ jr.normal(key, (a.shape[0], k)))[0]
    for _ in range(p):
        z = jnp.linalg.qr(a.T @ q)[0]
        q = jnp.linalg.qr(a @ z)[0]
    return q


def eig(key, a, k, p):
    q = range_finder(key, a, k, p)
    w, v = jnp.linalg.eigh(q.T @ a @ q)
    return w, q @ v


def pseudo_solve(w, v, rcond, t):
    keep = w >= rcond * jnp.max(w)
    inv = jnp.where(keep, 1 / jnp.where(keep, w, 1), 0)
    return (v * inv[None, :]) @ v.T @ t


def randomised(key, a, lam, t, e, k, p, rcond):
    eps = jnp.finfo(a.dtype).eps
    if rcond is None:
        r = eps * a.shape[0]
    elif rcond == -1:
        r = eps
    else:
        r = rcond
    w, v = eig(key, a + jnp.abs(lam) * e, k, p)
    return pseudo_solve(w, v, r, t)


def stack(f, a, lam, t, e):
    return jax.vmap(lambda x, y: f(x, jnp.abs(lam), y, e))(a, t)
