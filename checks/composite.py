"""Composite solvers."""
from sa.framework import *
from sa.ops import tup
from .solvers import Setup, fld, item, SV


def base_contract(I, u):
    """Take the base solver as a function of the data it is given (indices and weights)."""
    def pair(X, W, m):
        return nd.raw("baseidx", m, X, W), nd.raw("basew", m, X, W)

    def reduce(I, args, kw):
        me, ds = args[0], args[1] if len(args) > 1 else kw["dataset"]
        i, w = pair(I.getattr(ds, "data"), I.getattr(ds, "weights"), I.getattr(me, "coreset_size"))
        return tup(I.call(u.CO, [I.call(u.D, [i, w], {}), ds], {}), sym("basestate", "state"))

    I.hooks["coreax.solvers.coresubset.KernelHerding.reduce"] = reduce
    I.hooks["spec_base"] = lambda I, a, kw: tup(*pair(a[0], a[1], a[2]))


def map_reduce(s):
    A = SV + "MapReduce"
    for n, leaf, m, tree in ((7, 8, 3, ""), (8, 8, 2, ""), (20, 8, 3, ""), (9, 8, 2, ""), (16, 8, 3, "BallTree"), (37, 11, 3, "")) + (((100, 9, 2, ""), (64, 16, 5, "BallTree")) if s.tier == "thorough" else ()):
        I = s.interp()
        u = Setup(s, I)
        base_contract(I, u)
        X, W = s.array(f"X{n}", C(n), u.d), s.array(f"W{n}", C(n))
        ds = I.call(u.D, [X, W], {})
        b = I.call(s.cls(I, SV + "KernelHerding"), [], dict(coreset_size=C(m), kernel=u.k))
        o = I.call(s.cls(I, A), [], dict(base_solver=b, leaf_size=C(leaf), **({"tree_type": nd.raw("ext", "sklearn.neighbors." + tree)} if tree else {})))
        r = s.call(I, o, "reduce", ds)
        ref = s.spec(I, "composite.map_reduce", X, W, C(m), C(leaf), *([nd.raw("ext", "sklearn.neighbors." + tree)] if tree else []))
        c = item(I, r, 0)
        lab = f"MapReduce.reduce (n={n}, leaf size {leaf}, m={m}{", " + tree if tree else ""})"
        s.equal(lab + ": indices", fld(I, c, "unweighted_indices"), ref.args[0], A + ".reduce")
        s.equal(lab + ": weights", fld(I, c, "points", "weights"), ref.args[1], A + ".reduce")
        s.equal(lab + ": refers to the caller's data", fld(I, c, "pre_coreset_data"), ds, A + ".reduce")
