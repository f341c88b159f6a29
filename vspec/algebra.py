"""Composition of kernels."""
import jax
import jax.numpy as jnp


def add(a, b):
    return a + b


def mul(a, b):
    return a * b


def power(a, b):
    return a ** b


def stein(k, score, x, y):
    sx, sy = score(x), score(y)
    return (k.divergence_x_grad_y_elementwise(x, y) + jnp.dot(k.grad_x_elementwise(x, y), sy)
            + jnp.dot(k.grad_y_elementwise(x, y), sx) + k.compute_elementwise(x, y) * jnp.dot(sx, sy))


def sqrt_length_scale(length_scale, output_scale, dim):
    return length_scale / jnp.sqrt(2)


def sqrt_output_scale(length_scale, output_scale, dim):
    return jnp.sqrt(output_scale) * (2 / (jnp.pi * length_scale ** 2)) ** (dim / 4)


def median_heuristic(x):
    sq = jax.vmap(lambda a: jax.vmap(lambda b: jnp.dot(a - b, a - b))(x))(x)
    return jnp.sqrt(jnp.median(sq[jnp.triu_indices(x.shape[0], k=1)]) / 2)
