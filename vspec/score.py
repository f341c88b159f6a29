"""Score matching."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.random as jr

from coreax.networks import ScoreNetwork, create_train_state


def kde_value(data, length_scale, x):
    """Kernel density estimate at one point (Gaussian kernel, up to the dimension-dependent constant)."""
    d2 = jax.vmap(lambda p: jnp.dot(x - p, x - p))(data)
    return jnp.mean(jnp.exp(-d2 / (2 * length_scale ** 2)))


def kde_score(data, length_scale, x):
    def one(p):
        e = jax.vmap(lambda q: jnp.exp(-jnp.dot(p - q, p - q) / (2 * length_scale ** 2)))(data)
        g = jax.vmap(lambda q: (q - p) / length_scale ** 2)(data)
        return (e @ g) / jnp.sum(e)
    return jax.vmap(one)(x)


def kde_score_one(data, length_scale, x):
    return kde_score(data, length_scale, x[None, :])[0]


def sliced_objective(analytic, net, x, vectors):
    """Mean over points and random directions of  v.(ds v) + (|s|^2 or (v.s)^2) / 2."""
    def element(p, v):
        s, ds = jax.jvp(net, (p,), (v,))
        return jnp.dot(v, ds) + (jnp.dot(s, s) if analytic else jnp.dot(v, s) ** 2) / 2
    return jax.vmap(lambda p, vs: jax.vmap(lambda v: element(p, v))(vs))(x, vectors)


def sliced_loss(analytic, conditioned, sigma, gamma, models, net, x, vectors):
    def standard(points):
        return jnp.mean(sliced_objective(analytic, net, points, vectors))
    if not conditioned:
        return standard(x)
    def level(i, total):
        sig = sigma * gamma ** i
        return total + sig ** 2 * standard(x + sig * jr.normal(jr.key(0), x.shape))
    return jax.lax.fori_loop(0, models, level, 0.0)


def sliced_step(analytic, conditioned, sigma, gamma, models, state, x, vectors):
    def loss(params, points):
        return sliced_loss(analytic, conditioned, sigma, gamma, models, functools.partial(state.apply_fn, {"params": params}), points, vectors)
    grads = eqx.filter_value_and_grad(loss)(state.params, x)[1]
    return state.apply_gradients(grads=grads)


def sliced_score(key, gen, analytic, conditioned, sigma, gamma, models, num, rate, epochs, batch, hidden, optimiser, x, q):
    n, d = x.shape
    k1, k2, k3 = jr.split(key, 3)
    vectors = gen(k1, (n, num, d), float)
    state = create_train_state(k2, ScoreNetwork(hidden, d), rate, d, optimiser)
    keys = jr.split(k3, epochs)
    for i in range(epochs):
        rows = jr.randint(keys[i], (batch,), 0, n)
        state = sliced_step(analytic, conditioned, sigma, gamma, models, state, x[rows], vectors[rows])
    return state.apply_fn({"params": state.params}, q)


def loss_of(analytic, conditioned, sigma, gamma, models, net, params, x, vectors):
    return sliced_loss(analytic, conditioned, sigma, gamma, models, functools.partial(net, {"params": params}), x, vectors)


def generator(key, shape, dtype):
    return jr.normal(key, shape, dtype)
