"""Recombination solvers."""
from sa.framework import *
from sa import shapes
from .solvers import fld, item

SV = "coreax.solvers."


def setup(s, I):
    n, d, t = s.dim("n"), s.dim("d"), s.dim("tf_dim")
    for a in (n, d, t):
        FACTS_LE.append((nd.ONE, a))
    X, W = s.array("X", n, d), s.array("W", n)
    ds = I.call(s.cls(I, "coreax.data.Data"), [X, W], {})
    f = sym("testfn", "vecfn")
    shapes.FN_SHAPE["testfn"] = (t,)
    return X, W, ds, f


def caratheodory(s):
    I = s.interp()
    X, W, ds, f = setup(s, I)
    A = SV + "CaratheodoryRecombination"
    rc = s.scalar("rcond")
    for fl, fn in (("identity", NONE), ("test functions", f)):
        for mode in ("implicit-explicit", "implicit", "explicit"):
            for rl, r in (("default cutoff", NONE), ("given cutoff", rc)):
                o = I.call(s.cls(I, A), [], dict(test_functions=fn, mode=C(mode), rcond=r))
                out = s.call(I, o, "reduce", ds)
                c = item(I, out, 0)
                ref = s.spec(I, "recombination.caratheodory", X, W, fn, r, C(mode))
                lab = f"CaratheodoryRecombination.reduce ({fl}, {mode}, {rl})"
                s.equal(lab + ": indices", fld(I, c, "unweighted_indices"), ref.args[0], A + ".reduce")
                s.equal(lab + ": weights", fld(I, c, "points", "weights"), ref.args[1], A + ".reduce")
                s.equal(lab + ": data", fld(I, c, "pre_coreset_data"), ds, A + ".reduce")


def tree(s):
    I = s.interp()
    X, W, ds, f = setup(s, I)
    A = SV + "TreeRecombination"
    rc = s.scalar("rcond")
    for fl, fn in (("identity", NONE), ("test functions", f)):
        for mode in ("implicit-explicit", "implicit", "explicit"):
            for tl, tf in (("factor 2", C(2)), ("factor 3", C(3))):
                o = I.call(s.cls(I, A), [], dict(test_functions=fn, mode=C(mode), rcond=rc, tree_reduction_factor=tf))
                out = s.call(I, o, "reduce", ds)
                c = item(I, out, 0)
                ref = s.spec(I, "recombination.tree", X, W, fn, rc, tf, C(mode))
                lab = f"TreeRecombination.reduce ({fl}, {mode}, {tl})"
                s.equal(lab + ": indices", fld(I, c, "unweighted_indices"), ref.args[0], A + ".reduce")
                s.equal(lab + ": weights", fld(I, c, "points", "weights"), ref.args[1], A + ".reduce")
                s.equal(lab + ": data", fld(I, c, "pre_coreset_data"), ds, A + ".reduce")
