"""Recombination."""
import math
import jax
import jax.numpy as jnp
import jax.scipy as jsp


def normalised(w):
    return jnp.nan_to_num(w / jnp.sum(w))


def pushed(x, f):
    return x if f is None else jax.vmap(f)(x)


def null_basis(p, rcond):
    q, s, _ = jsp.linalg.svd(p, full_matrices=True)
    eps = jnp.finfo(s.dtype).eps
    cut = eps * max(p.shape) if rcond is None else jnp.where(rcond < 0, eps, rcond)
    rank = jnp.sum(s > cut * jnp.max(s[0]))
    return q.T[::-1], jnp.maximum(0, p.shape[0] - rank)


def support(w, idx, mode, n, m):
    lowest = jnp.argmin(w)
    if mode == "explicit":
        sel = jnp.flatnonzero(w)
    elif mode == "implicit":
        sel = jnp.flatnonzero(w, size=n, fill_value=lowest)
    else:
        sel = jnp.flatnonzero(w, size=min(n, m), fill_value=lowest)
    return idx[sel], w[sel]


def eliminate(p, w, rcond):
    """Weights of a solution of the moment conditions with minimal support."""
    basis, count = null_basis(p, rcond)

    def step(state):
        w, b, i = state
        v = b[i]
        ratio = jnp.where(v > 0, w / v, jnp.inf)
        e = jnp.argmin(ratio)
        w = (w - ratio[e] * v).at[e].set(0)
        b = b - b[:, e][:, None] * v[None, :] / v[e]
        return w, b.at[:, e].set(0), i + 1

    return jax.lax.while_loop(lambda s: s[2] < count, step, (w, basis, 0))[0]


def without_zeros(p, w):
    """Zero-weighted nodes are replaced by copies of the heaviest node, which share its weight."""
    top = jnp.argmax(w)
    live = jnp.where(w > 0, 1, 0)
    copies = jnp.sum(1 - live) + 1
    idx = jnp.arange(w.shape[0]) * live + (1 - live) * top
    w = w.at[top].set(w[top] / copies)
    return p[idx], w[idx], idx


def caratheodory(x, w, f, rcond, mode):
    p = pushed(x, f)
    p = jnp.concatenate([jnp.ones((p.shape[0], 1)), p], axis=1)
    p, w, idx = without_zeros(p, normalised(w))
    return support(eliminate(p, w, rcond), idx, mode, p.shape[0], p.shape[1])


def tree_shape(n, m, factor):
    depth = max(1, math.ceil(math.log(n / m, factor)))
    return m * factor ** depth - n, factor * m, depth


def tree(x, w, f, rcond, factor, mode):
    p = pushed(x, f)
    n, m = p.shape[0], p.shape[1] + 1
    padding, count, depth = tree_shape(n, m, factor)

    def step(_, state):
        w, idx = state
        groups = jnp.argsort(w).reshape(count, -1, order="F")
        gw = w[groups]
        mass = jnp.sum(gw, axis=1)
        centre = jax.vmap(lambda a, b: jnp.nan_to_num(jnp.average(a, 0, b)))(p[idx[groups]], gw)
        sel, sw = caratheodory(centre, mass, None, rcond, "implicit")
        chosen = groups[sel]
        return (w[chosen] * (sw / mass[sel])[:, None]).reshape(-1, order="F"), idx[chosen.reshape(-1, order="F")]

    w0 = jnp.concatenate([normalised(w), jnp.zeros(padding)])
    idx0 = jnp.minimum(jnp.arange(n + padding), n - 1)
    w, idx = jax.lax.fori_loop(0, depth, step, (w0, idx0))
    return support(w, idx, mode, n, m)
