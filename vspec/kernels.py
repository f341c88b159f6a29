"""Documented kernel values."""
import jax.numpy as jnp


def sq(x, y):
    return jnp.sum((x - y) ** 2)


def LinearKernel(x, y, os, cst):
    return os * jnp.sum(x * y) + cst


def PolynomialKernel(x, y, os, cst, deg):
    return os * (jnp.sum(x * y) + cst) ** deg


def ExponentialKernel(x, y, ls, os):
    return os * jnp.exp(-jnp.sqrt(sq(x, y)) / (2 * ls**2))


def LaplacianKernel(x, y, ls, os):
    return os * jnp.exp(-jnp.sum(jnp.abs(x - y)) / (2 * ls**2))


def SquaredExponentialKernel(x, y, ls, os):
    return os * jnp.exp(-sq(x, y) / (2 * ls**2))


def PCIMQKernel(x, y, ls, os):
    return os / jnp.sqrt(1 + sq(x, y) / (2 * ls**2))


def RationalQuadraticKernel(x, y, ls, os, rw):
    return os * (1 + sq(x, y) / (2 * rw * ls**2)) ** (-rw)


def PeriodicKernel(x, y, ls, os, per):
    return os * jnp.exp(-2 * jnp.sin(jnp.pi * jnp.sqrt(sq(x, y)) / per) ** 2 / ls**2)


def LocallyPeriodicKernel(x, y, pls, pos, per, sls, sos):
    return PeriodicKernel(x, y, pls, pos, per) * SquaredExponentialKernel(x, y, sls, sos)


def PoissonKernel(x, y, index, os):
    return os / (1 - 2 * index * jnp.cos(jnp.abs(x[0] - y[0])) + index**2)


def matern0(x, y, ls, os):
    r = jnp.sqrt(sq(x, y)) / ls
    return os**2 * jnp.exp(-r)


def matern1(x, y, ls, os):
    r = jnp.sqrt(3) * jnp.sqrt(sq(x, y)) / ls
    return os**2 * (1 + r) * jnp.exp(-r)


def matern2(x, y, ls, os):
    r = jnp.sqrt(5) * jnp.sqrt(sq(x, y)) / ls
    return os**2 * (1 + r + r**2 / 3) * jnp.exp(-r)


def matern3(x, y, ls, os):
    r = jnp.sqrt(7) * jnp.sqrt(sq(x, y)) / ls
    return os**2 * (1 + r + 2 * r**2 / 5 + r**3 / 15) * jnp.exp(-r)


def AdditiveKernel(x, y, k1, k2):
    return k1.compute_elementwise(x, y) + k2.compute_elementwise(x, y)


def ProductKernel(x, y, k1, k2):
    return k1.compute_elementwise(x, y) * k2.compute_elementwise(x, y)


def PowerKernel(x, y, k, p):
    return k.compute_elementwise(x, y) ** p


def periodic_divergence_as_recorded(x, y, ls, os, per):
    """Recorded defect: the last term carries an extra factor of the output scale."""
    d = x.shape[0]
    r = jnp.sqrt(sq(x, y))
    f = jnp.pi / per
    s, c = jnp.sin(f * r), jnp.cos(f * r)
    e = jnp.exp(-2 * s**2 / ls**2)
    a = 4 * f * os / ls**2
    t = -s * c * e / r - f * s**2 * e + f * c**2 * e - a * s**2 * c**2 * e
    return a * (d * s * c * e / r + t)


def locally_periodic_divergence_as_recorded(x, y, pls, pos, per, sls, sos):
    """Product rule with the recorded PeriodicKernel divergence."""
    r = jnp.sqrt(sq(x, y))
    f = jnp.pi / per
    k1 = PeriodicKernel(x, y, pls, pos, per)
    k2 = SquaredExponentialKernel(x, y, sls, sos)
    gy1 = 4 * (x - y) * f / (r * pls**2) * jnp.sin(f * r) * jnp.cos(f * r) * k1
    gy2 = (x - y) / sls**2 * k2
    div2 = (x.shape[0] - sq(x, y) / sls**2) / sls**2 * k2
    div1 = periodic_divergence_as_recorded(x, y, pls, pos, per)
    return -2 * jnp.sum(gy1 * gy2) + k1 * div2 + k2 * div1
