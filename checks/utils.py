"""Utilities every solver and metric builds on."""
from sa.framework import *

U = "coreax.util."


def pairs(s):
    I = s.interp()
    n, m, d, e = s.dim("n"), s.dim("m"), s.dim("d"), s.dim("e")
    FACTS_LE.extend([(nd.ONE, q) for q in (n, m, d, e)])
    X, Y, x, y = s.array("X", n, d), s.array("Y", m, d), s.array("x", d), s.array("y", d)
    a, b = s.scalar("a"), s.scalar("b")
    from sa.shapes import FN_SHAPE
    for name, sh in (("scalar function", ()), ("vector function", (e,))):
        f = sym("fn" + str(len(sh)), "func")
        FN_SHAPE["fn" + str(len(sh))] = sh
        p = I.call(I.get(U + "pairwise"), [f], {})
        s.equal(f"pairwise {name}: every pair in order", I.call(p, [X, Y], {}), s.spec(I, "util.table", f, X, Y), U + "pairwise")
        s.equal(f"pairwise {name}: single points", I.call(p, [x, y], {}), s.spec(I, "util.single", f, x, y), U + "pairwise")
        s.equal(f"pairwise {name}: one point against many", I.call(p, [x, Y], {}), s.spec(I, "util.table", f, s.spec(I, "util.row", x), Y), U + "pairwise")
    for name, ref in (("squared_distance", "sqdist"), ("difference", "diff")):
        g = I.get(U + name)
        s.equal(f"{name}: vectors", I.call(g, [x, y], {}), s.spec(I, "util." + ref, x, y), U + name)
        s.equal(f"{name}: numbers", I.call(g, [a, b], {}), s.spec(I, "util." + ref, s.spec(I, "util.as_vector", a), s.spec(I, "util.as_vector", b)), U + name)


def padding(s):
    I = s.interp()
    n, d, k = s.dim("n"), s.dim("d"), s.dim("k")
    X, w, Y = s.array("X", n, d), s.array("w", n), s.array("Y", n, s.dim("p"))
    A = U + "tree_zero_pad_leading_axis"
    f = I.get(A)
    for name, v in (("matrix", X), ("vector", w)):
        s.equal(f"padding a {name} with zero rows at the end", I.call(f, [v, k], {}), s.spec(I, "util.pad", v, k), A)
    sd = I.call(s.cls(I, "coreax.data.SupervisedData"), [X, Y, w], {})
    r = I.call(f, [sd, k], {})
    for fl, v in (("data", X), ("supervision", Y), ("weights", w)):
        s.equal(f"padding a dataset: {fl}", I.getattr(r, fl), s.spec(I, "util.pad", v, k), A)
    p = s.scalar("pw", "int")
    s.raises_iff("negative padding is rejected", I, lambda: I.call(f, [X, p], {}), nd.cmp("lt", p, nd.ZERO), anchor=A)
    R = U + "tree_leaves_repeat"
    a, b, c = s.scalar("a"), s.scalar("b"), s.scalar("c")
    from sa.ext import tup
    for label, arg, L, ref in (("one of two", a, 2, (a, a)), ("one of three", a, 3, (a, a, a)), ("two of two", (a, b), 2, (a, b)),
                               ("two of four", (a, b), 4, (a, b, b, b)), ("None kept", NONE, 2, (NONE, NONE)), ("None last", (a, NONE), 3, (a, NONE, NONE)),
                               ("longer than needed", (a, b, c), 2, (a, b, c))):
        v = I.call(I.get(R), [tup(*arg) if isinstance(arg, tuple) else arg, C(L)], {})
        got = list(v.args) if v.op in ("list", "tuple") else None
        if got is None:
            s.holds(f"tree_leaves_repeat ({label})", None, "not a concrete sequence", anchor=R)
        else:
            s.holds(f"tree_leaves_repeat ({label})", [x.id for x in got] == [x.id for x in ref], f"gives {[nd.show(x) for x in got]}", anchor=R)


def sampling(s):
    I = s.interp()
    n, b, k = s.dim("n"), s.dim("b"), s.dim("k")
    key = s.key()
    A = U + "sample_batch_indices"
    f = I.get(A)
    FACTS_LE.append((b, n))
    s.equal("batches: a prefix of an independent permutation each", I.call(f, [key, n, b, k], {}), s.spec(I, "util.batches_vmap", key, n, b, k), A)
    FACTS_LE.pop()
    p, q = s.scalar("p", "int"), s.scalar("q", "int")
    s.raises_iff("batches larger than the index range are rejected", I, lambda: I.call(f, [key, p, q, C(3)], {}), nd.lor(nd.cmp("lt", p, q), nd.cmp("lt", q, nd.ZERO)), anchor=A)
    A = U + "apply_negative_precision_threshold"
    x, t = s.scalar("x"), s.scalar("t")
    s.equal("small negative values become zero, others are kept", I.call(I.get(A), [x, t], {}), s.spec(I, "util.threshold", x, t), A)
    A = "coreax.kernels.util.median_heuristic"
    X = s.array("X", n, s.dim("d"))
    s.equal("median heuristic", I.call(I.get(A), [X], {}), s.spec(I, "algebra.median_heuristic", X), A)
