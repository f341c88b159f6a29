"""Map-reduce over a binary space partition."""
import math
import jax
import jax.numpy as jnp
import numpy as np
from sklearn.neighbors import KDTree


def spec_base(x, w, size):
    pass


def partition(x, w, leaf, kind):
    """Row numbers of the (zero-padded) data in the leaves of a balanced tree, one leaf per row."""
    n = x.shape[0]
    half = max(1, leaf // 2)
    leaves = 1
    while leaves * 2 * half <= n - 1:
        leaves = leaves * 2
    rows = math.ceil(n / leaves)
    xp = jnp.concatenate([x, jnp.zeros((rows * leaves - n, x.shape[1]))])
    wp = jnp.concatenate([w, jnp.zeros(rows * leaves - n)])

    def tree(a, b):
        _, order, _, _ = kind(a, leaf_size=half, sample_weight=b).get_arrays()
        return order.reshape(leaves, -1).astype(np.int32)

    order = jax.pure_callback(tree, jax.ShapeDtypeStruct((leaves, rows), jnp.int32), xp, wp)
    return xp, wp, order


def map_reduce(x, w, size, leaf, kind=KDTree):
    """Indices (into x) and weights selected."""
    n = x.shape[0]
    if n <= leaf:
        return spec_base(x, w, size)
    xp, wp, order = partition(x, w, leaf, kind)
    sel = jax.vmap(lambda o: o[spec_base(xp[o], wp[o], size)[0]])(order)
    sw = jax.vmap(lambda o: spec_base(xp[o], wp[o], size)[1])(order).reshape(-1)
    i = sel.reshape(-1)
    j, v = map_reduce(xp[sel.reshape(-1)], sw, size, leaf, kind)
    return i[j], v
