"""Reference formulas of the coresubset solvers."""
import jax
import jax.numpy as jnp
import jax.random as jr
import jax.scipy as jsp


def kvec(k, x, p):
    return jax.vmap(lambda a: k.compute_elementwise(a, p))(x)


def row_mean(k, x, w):
    v = jnp.nan_to_num(w / jnp.sum(w))
    return jnp.sum(v[:, None] * jax.vmap(lambda a: kvec(k, x, a))(x), axis=0)


def greedy(k, x, w, idx, cw, m, unique, choose):
    """Greedy (re)selection of m indices; positions of zero weight are still free."""
    pad = max(0, m - idx.shape[0])
    idx = jnp.concatenate([idx, jnp.zeros(pad)])
    cw = jnp.concatenate([cw, jnp.zeros(pad)])
    v = jnp.nan_to_num(cw / jnp.sum(cw))
    size = jnp.sum(jnp.where(cw > 0, 1, 0))
    penalty = size * jnp.sum(jax.vmap(lambda a: v * kvec(k, x[idx], a))(x), axis=1)

    def body(i, val):
        idx, penalty, size = val
        free = cw[i] <= 0
        penalty = jnp.where(free, penalty, penalty - kvec(k, x, x[idx[i]]))
        size = jnp.where(free, size + 1, size)
        masked = jnp.where(w > 0, penalty, jnp.nan)
        if unique:
            taken = (idx != idx[i]) & (cw > 0)
            masked = masked.at[idx].set(jnp.where(taken, jnp.inf, masked[idx]))
        new = choose(i, masked, size)
        penalty = penalty + kvec(k, x, x[new])
        if unique:
            penalty = penalty.at[new].set(jnp.inf)
        return idx.at[i].set(new), penalty, size

    return jax.lax.fori_loop(0, m, body, (idx, penalty, size))[0][:m]


def herding(k, x, w, idx, cw, m, unique, mean, probabilistic, temperature, key):
    n = x.shape[0]

    def choose(i, penalty, size):
        gain = mean - penalty / size
        if probabilistic:
            gain = jnp.where(jnp.isnan(gain), -jnp.inf, gain)
            p = jax.nn.softmax(gain / temperature)
            return jr.choice(jr.fold_in(key, i), n, (), p=p, replace=False)
        return jnp.nanargmax(gain)

    return greedy(k, x, w, idx, cw, m, unique, choose)


def herding_iterative(k, x, w, m, unique, mean, probabilistic, temperature, key, iterations, schedule):
    def again(i, state):
        idx, cw = state[0][:, 0], state[1]
        t = temperature if schedule is None else schedule[i]
        return herding(k, x, w, idx, cw, m, unique, mean, probabilistic, t, jr.fold_in(key, i))[:, None], jnp.ones(m)

    return jax.lax.fori_loop(0, iterations, again, (jnp.zeros((m, 1)), jnp.zeros(m)))[0][:, 0]


def zeros(m):
    return jnp.zeros(m)


def ones(m):
    return jnp.ones(m)


def sample(key, n, m, p, replace):
    return jr.choice(key, n, (m,), p=p, replace=replace)


def stein(k, sk, x, w, idx, cw, m, unique, regularise, lam, bw):
    """k: kernel of the greedy penalty and diagonal; sk: Stein kernel of the correction."""
    diagonal = jax.vmap(lambda a: k.compute_elementwise(a, a))(x)
    if regularise:
        kde = jsp.stats.gaussian_kde(x.T, weights=w, bw_method=bw)
        rate = 1 / idx.shape[0] if lam is None else lam
        log_pdf = rate * kde.logpdf(x.T)

        def positive(p):
            return jnp.sum(jnp.maximum(jnp.diag(jax.jacfwd(sk.score_function)(p)), 0.0))
        laplace = jax.vmap(positive)(x)
    else:
        log_pdf = 0.0
        laplace = 0.0

    def choose(i, penalty, size):
        return jnp.nanargmin(diagonal + 2 * penalty + laplace - (i + 1) * log_pdf)

    return greedy(k, x, w, idx, cw, m, unique, choose)


def cholesky(k, x, m, unique, diagonal, key):
    n = x.shape[0]

    def body(i, val):
        residual, f, idx = val
        available = jnp.ones(n).at[idx].set(0)
        degenerate = jnp.all(residual == 0) | jnp.any(jnp.isnan(residual))
        p = jnp.where(degenerate, available / jnp.sum(available), residual)
        s = jr.choice(jr.fold_in(key, i), n, (), p=p, replace=False)
        g = kvec(k, x, x[s]) - f @ f[s]
        f = f.at[:, i].set(g / jnp.sqrt(g[s]))
        residual = jnp.maximum(residual - f[:, i] ** 2, 0)
        if unique:
            residual = residual.at[s].set(0)
        return residual, f, idx.at[i].set(s)

    r = jax.lax.fori_loop(0, m, body, (diagonal, jnp.zeros((n, m)), jnp.full((m,), n + 1)))
    return r[2], r[0]


def diagonal(k, x):
    return jax.vmap(lambda a: k.compute_elementwise(a, a))(x)


def batches(key, n, size, count):
    keys = jr.split(key, count)
    return jax.vmap(lambda k: jr.permutation(k, n))(keys)[:, :size]


def gkp_loss(lss, gram, y, cand, reg, identity, loss_batch):
    g = jax.vmap(lambda c: gram[c][:, c])(cand)
    cross = jax.vmap(lambda c: gram[c][:, loss_batch])(cand)
    coef = lss.solve_stack(arrays=g, regularisation_parameter=reg, targets=y[cand], identity=identity)
    pred = jnp.sum(cross * coef, axis=1)
    return jnp.sum(pred ** 2 - 2 * pred * y[loss_batch, 0], axis=1)


def gkp(lss, gram, y, n, idx, m, reg, unique, cb, lb, key):
    ck, lk = jr.split(key)
    cand_batches = batches(ck, n, n if cb is None else cb, m)
    if cb is not None:
        cand_batches = jnp.hstack((cand_batches, idx[:, None]))
    loss_batches = batches(lk, n, n if lb is None else lb, m)
    y = jnp.concatenate([y, jnp.zeros((1, y.shape[1]))])
    known = jnp.concatenate([jnp.ones(n), jnp.zeros(1)])
    identity = jnp.diag(known[idx])
    cand = jnp.tile(idx, (cand_batches.shape[1], 1)).at[:, 0].set(cand_batches[0])

    def body(i, val):
        idx, identity, cand = val
        identity = identity.at[i, i].set(1)
        loss = gkp_loss(lss, gram, y, cand, reg, identity, loss_batches[i])
        if unique:
            loss = loss + jnp.where(jnp.isin(cand[:, i], idx.at[i].set(-1)), jnp.inf, 0)
        best = cand[jnp.argmin(loss), i]
        cand = cand.at[:, i].set(best).at[:, i + 1].set(cand_batches[i + 1])
        return idx.at[i].set(best), identity, cand

    return jax.lax.fori_loop(0, m, body, (idx, identity, cand))[0]


def gkp_gram(k, x):
    g = jax.vmap(lambda a: kvec(k, x, a))(x)
    return jnp.pad(g, ((0, 1), (0, 1)))


def minus_ones(m):
    return jnp.full((m,), -1)


def extended(idx, pad):
    return jnp.concatenate([idx, jnp.full((pad,), -1)])


def clipped(idx, m):
    return idx[:m]


def halve(k, x, n, delta, key):
    """One pass of kernel halving over the n pairs of rows of x."""
    def f(a, b):
        return k.compute_elementwise(a, b)

    def body(i, val):
        first, second, sigma, seen, done, key = val
        a, b = x[2 * i], x[2 * i + 1]
        dist = jnp.sqrt(f(a, a) + f(b, b) - 2 * f(a, b))
        thr = jnp.maximum(dist * sigma * jnp.sqrt(2 * jnp.log(2 / delta)), dist ** 2)
        new_sigma = jnp.sqrt(sigma ** 2 + jnp.maximum(dist ** 2 * (1 + (dist ** 2 - 2 * thr) * sigma ** 2 / thr ** 2), 0))
        gap = lambda p: f(p, a) - f(p, b)
        alpha = jnp.sum(jax.vmap(gap)(x) * seen) - 2 * jnp.sum(jax.vmap(lambda j: gap(x[j]))(first) * done)
        draw, rest = jr.split(key)
        swap = jr.uniform(draw) <= (1 - alpha / thr) / 2
        lo = jnp.where(swap, 2 * i + 1, 2 * i)
        hi = jnp.where(swap, 2 * i, 2 * i + 1)
        seen = seen.at[2 * i].set(1).at[2 * i + 1].set(1)
        return first.at[i].set(lo), second.at[i].set(hi), new_sigma, seen, done.at[i].set(1), rest

    r = jax.lax.fori_loop(0, n, body, (jnp.zeros(n), jnp.zeros(n), 0.0, jnp.zeros(2 * n), jnp.zeros(n), key))
    return r[0], r[1]


def spec_one_halving(k, x, n, delta, key):
    return halve(k, x, n, delta, key)


def halves(k, x, idx, depth, delta, key):
    """The 2**depth subsets of x[idx] produced by recursive halving."""
    if depth == 0:
        return [idx]
    a, b = spec_one_halving(k, x[idx], idx.shape[0] // 2, delta, key)
    return halves(k, x, idx[a], depth - 1, delta, key) + halves(k, x, idx[b], depth - 1, delta, key)


def mmd2(k, x, v, y, w):
    a, b = jnp.nan_to_num(v / jnp.sum(v)), jnp.nan_to_num(w / jnp.sum(w))
    g = lambda p, q: jax.vmap(lambda s: jax.vmap(lambda t: k.compute_elementwise(s, t))(q))(p)
    return jnp.sqrt(jnp.maximum(0.0, a @ g(x, x) @ a + b @ g(y, y) @ b - 2 * (a @ g(x, y) @ b)))


def best_of(k, x, w, candidates):
    """The candidate (indices of x) of least discrepancy from the weighted x."""
    c = jnp.stack(candidates)
    d = jax.vmap(lambda i: mmd2(k, x[i], jnp.ones(i.shape[0]), x, w))(c)
    return c[jnp.argmin(d)]


def thinning(k, k2, x, w, m, depth, delta, key, mean):
    candidates = halves(k2, x, jnp.arange(m * 2 ** depth), depth, delta, key)
    candidates = candidates + [jr.choice(key, x.shape[0], (m,), replace=False)]
    best = best_of(k, x, w, candidates)
    return herding(k, x, w, best, jnp.ones(m), m, True, mean, False, 1.0, key)


def spec_thinning(k, k2, x, w, m, delta, key):
    pass


def compress(k, k2, x, w, m, g, delta, key):
    n = x.shape[0]
    power = 0
    while 4 ** (power + 1) <= n:
        power = power + 1
    idx = jr.choice(key, n, (4 ** power,), replace=False)

    def thin(i, size):
        return i[spec_thinning(k, k2, x[i], w[i], size, delta, key)]

    def go(i):
        size = i.shape[0]
        if size == 4 ** g:
            return i
        both = jax.vmap(go)(i.reshape(4, size // 4)).reshape(-1)
        return thin(both, both.shape[0] // 2)

    return thin(go(idx), m)
