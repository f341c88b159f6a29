"""Approximate kernels."""
from sa.framework import *

A = "coreax.approximation."
METHODS = ("compute_elementwise", "grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise")


def row_means(s):
    I = s.interp()
    n, d, f, m = s.dim("n"), s.dim("d"), s.dim("f"), s.dim("m")
    FACTS_LE.extend([(nd.ONE, q) for q in (n, d, f, m)] + [(f, n), (m, n)])
    k = s.opaque(I, "k", "coreax.kernels.ScalarValuedKernel")
    X, W, v = s.array("X", n, d), s.array("W", n), s.array("v", n)
    x, y = s.array("x", d), s.array("y", d)
    key = s.key()
    data = I.call(s.cls(I, "coreax.data.Data"), [X, W], {})
    for name, spec in (("MonteCarloApproximateKernel", "monte_carlo"), ("ANNchorApproximateKernel", "annchor"), ("NystromApproximateKernel", "nystrom")):
        o = I.call(s.cls(I, A + name), [], dict(base_kernel=k, random_key=key, num_kernel_points=f, num_train_points=m))
        ref = s.spec(I, "approx." + spec, k, key, X, f, m)
        s.equal(f"{name}: row mean of an array", s.call(I, o, "gramian_row_mean", X), ref, A + name + ".gramian_row_mean")
        s.equal(f"{name}: row mean of a dataset", s.call(I, o, "gramian_row_mean", data), ref, A + name + ".gramian_row_mean")
        s.equal(f"{name}: block size has no effect", s.call(I, o, "gramian_row_mean", X, block_size=C(7)), ref, A + name + ".gramian_row_mean")
        s.equal(f"{name}: one-dimensional data", s.call(I, o, "gramian_row_mean", v), s.spec(I, "approx." + spec, k, key, s.spec(I, "approx.column", v), f, m), A + name + ".gramian_row_mean")
        for g in METHODS:
            s.equal(f"{name}.{g} is exact", s.call(I, o, g, x, y), s.call(I, k, g, x, y), A + "ApproximateKernel." + g)


def rejections(s):
    I = s.interp()
    n, d = s.dim("n"), s.dim("d")
    k = s.opaque(I, "k", "coreax.kernels.ScalarValuedKernel")
    X = s.array("X", n, d)
    p, q = s.scalar("p", "int"), s.scalar("q", "int")
    for name in ("MonteCarloApproximateKernel", "ANNchorApproximateKernel", "NystromApproximateKernel"):
        mk = lambda a, b: I.call(s.cls(I, A + name), [], dict(base_kernel=k, random_key=s.key(), num_kernel_points=a, num_train_points=b))
        s.raises_iff(f"{name}: numbers of points must be positive", I, lambda: mk(p, q),
                     nd.lor(nd.cmp("le", p, nd.ZERO), nd.cmp("le", q, nd.ZERO)), anchor=A + "RandomRegressionKernel.__check_init__")
