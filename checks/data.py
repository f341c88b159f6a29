"""Data containers, coresets and their construction."""
from sa.framework import *

D = "coreax.data."
CS = "coreax.coreset."


def setup(s, I):
    n, m, d, p = s.dim("n"), s.dim("m"), s.dim("d"), s.dim("p")
    for q in (n, m, d, p):
        FACTS_LE.append((nd.ONE, q))
    FACTS_LE.append((m, n))
    X, W, S = s.array("X", n, d), s.array("W", n), s.array("S", n, p)
    return n, m, d, p, X, W, S


def field(I, o, *names):
    for q in names:
        o = I.getattr(o, q)
    return o


def containers(s):
    I = s.interp()
    n, m, d, p, X, W, S = setup(s, I)
    Dc, Sc = s.cls(I, D + "Data"), s.cls(I, D + "SupervisedData")
    v1 = s.array("v1", n)
    c0 = s.scalar("c0")
    # conversion of the data array
    for label, x, ref in (("matrix", X, X), ("vector", v1, s.spec(I, "data.column", v1)), ("scalar", c0, s.spec(I, "data.cell", c0))):
        o = I.call(Dc, [x], {})
        s.equal(f"Data({label}).data", field(I, o, "data"), ref, D + "Data.__init__")
    # weights: default one, scalars broadcast, vectors kept
    for label, w, ref in (("default", NONE, s.spec(I, "data.ones", X)), ("scalar", c0, s.spec(I, "data.constant", X, c0)), ("vector", W, W)):
        for cl, args in (("Data", [X]), ("SupervisedData", [X, S])):
            o = I.call(s.cls(I, D + cl), args, {"weights": w})
            s.equal(f"{cl} weights ({label})", field(I, o, "weights"), ref, D + cl + ".__init__")
            s.equal(f"{cl} data ({label} weights)", field(I, o, "data"), X, D + cl + ".__init__")
            if cl == "SupervisedData":
                s.equal(f"{cl} supervision ({label} weights)", field(I, o, "supervision"), S, D + cl + ".__init__")
    sv = s.array("sv", n)
    o = I.call(Sc, [X, sv], {})
    s.equal("SupervisedData vector supervision", field(I, o, "supervision"), s.spec(I, "data.column", sv), D + "SupervisedData.__init__")
    o1, o2 = I.call(Dc, [X, W], {}), I.call(Sc, [X, S, W], {})
    ix_ = set_shape(sym("IDX", "int"), (m,))
    k = s.scalar("k", "int")
    for label, key in (("index array", ix_), ("slice", nd.raw("slice", NONE, m, NONE)), ("offset slice", nd.raw("slice", m, NONE, NONE))):
        for o, cl, fs in ((o1, "Data", ("data", "weights")), (o2, "SupervisedData", ("data", "supervision", "weights"))):
            g = s.spec(I, "data.getitem", o, key)
            for f in fs:
                s.equal(f"{cl}[{label}].{f} selects the same rows", field(I, g, f), s.spec(I, "data.getitem", field(I, o, f), key), D + "Data.__getitem__")
            same_class(s, I, f"{cl}[{label}] keeps its type", g, o, D + "Data.__getitem__")
    for o, cl in ((o1, "Data"), (o2, "SupervisedData")):
        s.equal(f"len({cl})", s.spec(I, "data.length", o), n, D + "Data.__len__")
        s.equal(f"{cl}.shape", field(I, o, "shape"), nd.raw("tuple", n, d), D + "Data.shape")
    s.equal("array(Data)", s.spec(I, "data.as_array", o1), X, D + "Data.__jax_array__")
    s.equal("array(SupervisedData)", s.spec(I, "data.as_array", o2), s.spec(I, "data.hstack", X, S), D + "Data.__jax_array__")
    for pz in (TRUE, FALSE):
        for o, cl in ((o1, "Data"), (o2, "SupervisedData")):
            g = s.call(I, o, "normalize", preserve_zeros=pz)
            ref = s.spec(I, "data.normalised_weights", W, pz)
            s.equal(f"{cl}.normalize(preserve_zeros={nd.show(pz)}) weights", field(I, g, "weights"), ref, D + "Data.normalize")
            s.equal(f"{cl}.normalize data", field(I, g, "data"), X, D + "Data.normalize")
            same_class(s, I, f"{cl}.normalize keeps its type", g, o, D + "Data.normalize")
            if cl == "SupervisedData":
                s.equal(f"{cl}.normalize supervision", field(I, g, "supervision"), S, D + "Data.normalize")
    g = s.call(I, o1, "normalize")
    s.equal("Data.normalize() weights by default", field(I, g, "weights"), s.spec(I, "data.normalised_weights", W, FALSE), D + "Data.normalize")
    ad, asd = I.get(D + "as_data"), I.get(D + "as_supervised_data")
    s.equal("as_data(Data) is the argument", I.call(ad, [o1], {}), o1, D + "as_data")
    s.equal("as_data(SupervisedData) is the argument", I.call(ad, [o2], {}), o2, D + "as_data")
    g = I.call(ad, [X], {})
    s.equal("as_data(array).data", field(I, g, "data"), X, D + "as_data")
    s.equal("as_data(array).weights", field(I, g, "weights"), s.spec(I, "data.ones", X), D + "as_data")
    s.equal("as_supervised_data(SupervisedData) is the argument", I.call(asd, [o2], {}), o2, D + "as_supervised_data")
    g = I.call(asd, [nd.raw("tuple", X, S)], {})
    s.equal("as_supervised_data(pair).data", field(I, g, "data"), X, D + "as_supervised_data")
    s.equal("as_supervised_data(pair).supervision", field(I, g, "supervision"), S, D + "as_supervised_data")
    s.equal("as_supervised_data(pair).weights", field(I, g, "weights"), s.spec(I, "data.ones", X), D + "as_supervised_data")


def supervised_mismatch(s):
    I = s.interp()
    n, q, d, p = s.dim("n"), s.dim("q"), s.dim("d"), s.dim("p")
    X, S = s.array("X", n, d), s.array("S2", q, p)
    s.raises_iff("SupervisedData rejects different numbers of rows", I, lambda: I.call(s.cls(I, D + "SupervisedData"), [X, S], {}),
                 nd.lnot(nd.cmp("eq", n, q)), anchor=D + "SupervisedData.__check_init__")


def same_class(s, I, label, a, b, anchor):
    ca, cb = I.class_of(a), I.class_of(b)
    s.holds(label, None if ca is None or cb is None else ca is cb, f"type {ca and ca.name} instead of {cb and cb.name}", anchor=anchor)


def coresets(s):
    I = s.interp()
    n, m, d, p, X, W, S = setup(s, I)
    Dc, Sc = s.cls(I, D + "Data"), s.cls(I, D + "SupervisedData")
    o1, o2 = I.call(Dc, [X, W], {}), I.call(Sc, [X, S, W], {})
    IX = set_shape(sym("IDX", "int"), (m,))
    V = s.array("V", m)
    ind = I.call(Dc, [IX, V], {})
    CO = s.cls(I, CS + "Coresubset")
    PS = s.cls(I, CS + "PseudoCoreset")
    for o, cl, fs in ((o1, "Data", ("data",)), (o2, "SupervisedData", ("data", "supervision"))):
        for how in ("direct", "build"):
            c = I.call(CO, [ind, o], {}) if how == "direct" else I.call(I.getattr(CO, "build"), [ind, o], {})
            pts = field(I, c, "points")
            for f in fs:
                s.equal(f"Coresubset({cl}, {how}).points.{f} are the indexed rows", field(I, pts, f),
                        s.spec(I, "data.rows", field(I, o, f), IX), CS + "Coresubset.points")
            s.equal(f"Coresubset({cl}, {how}).points.weights are those of the indices", field(I, pts, "weights"), V, CS + "Coresubset.points")
            same_class(s, I, f"Coresubset({cl}, {how}).points type", pts, o, CS + "Coresubset.points")
            s.equal(f"Coresubset({cl}, {how}).pre_coreset_data", field(I, c, "pre_coreset_data"), o, CS + "Coresubset.pre_coreset_data")
            s.equal(f"Coresubset({cl}, {how}).unweighted_indices", field(I, c, "unweighted_indices"), IX, CS + "Coresubset.unweighted_indices")
            s.equal(f"Coresubset({cl}, {how}).indices", field(I, c, "indices"), ind, CS + "Coresubset.indices")
            s.equal(f"len(Coresubset({cl}, {how}))", s.spec(I, "data.length", c), m, CS + "AbstractCoreset.__len__")
        # pseudo-coreset
        nodes = I.call(Dc, [s.array("Z", m, d), V], {})
        for how in ("direct", "build"):
            c = I.call(PS, [nodes, o], {}) if how == "direct" else I.call(I.getattr(PS, "build"), [nodes, o], {})
            s.equal(f"PseudoCoreset({cl}, {how}).points", field(I, c, "points"), nodes, CS + "PseudoCoreset.points")
            s.equal(f"PseudoCoreset({cl}, {how}).pre_coreset_data", field(I, c, "pre_coreset_data"), o, CS + "PseudoCoreset.pre_coreset_data")
            s.equal(f"len(PseudoCoreset({cl}, {how}))", s.spec(I, "data.length", c), m, CS + "AbstractCoreset.__len__")
    # builders accept arrays and pairs
    for cname, C_, first in (("Coresubset", CO, IX), ("PseudoCoreset", PS, s.array("Z", m, d))):
        b = I.getattr(C_, "build")
        c = I.call(b, [first, X], {})
        s.equal(f"{cname}.build(array) data", field(I, c, "pre_coreset_data", "data"), X, CS + cname + ".build")
        s.equal(f"{cname}.build(array) weights", field(I, c, "pre_coreset_data", "weights"), s.spec(I, "data.ones", X), CS + cname + ".build")
        s.equal(f"{cname}.build(array) coreset weights", field(I, c, "points", "weights"), s.spec(I, "data.ones", IX), CS + cname + ".build")
        c = I.call(b, [first, nd.raw("tuple", X, S)], {})
        s.equal(f"{cname}.build(pair) data", field(I, c, "pre_coreset_data", "data"), X, CS + cname + ".build")
        s.equal(f"{cname}.build(pair) supervision", field(I, c, "pre_coreset_data", "supervision"), S, CS + cname + ".build")
    # weights solver and metric
    wo = s.opaque(I, "wopt", "coreax.weights.WeightsOptimiser")
    me = s.opaque(I, "metric", "coreax.metrics.Metric")
    for cname, c in (("Coresubset", I.call(CO, [ind, o1], {})), ("PseudoCoreset", I.call(PS, [I.call(Dc, [s.array("Z", m, d), V], {}), o1], {}))):
        w = s.call(I, wo, "solve", field(I, c, "pre_coreset_data"), field(I, c, "points"))
        set_shape(w, (m,))
        g = s.call(I, c, "solve_weights", wo)
        s.equal(f"{cname}.solve_weights: weights solve (original data, coreset points)", field(I, g, "points", "weights"), w, CS + cname + ".solve_weights")
        s.equal(f"{cname}.solve_weights: points unchanged", field(I, g, "points", "data"), field(I, c, "points", "data"), CS + cname + ".solve_weights")
        s.equal(f"{cname}.solve_weights: original data unchanged", field(I, g, "pre_coreset_data"), o1, CS + cname + ".solve_weights")
        same_class(s, I, f"{cname}.solve_weights keeps its type", g, c, CS + cname + ".solve_weights")
        mv = s.call(I, c, "compute_metric", me)
        ref = s.call(I, me, "compute", field(I, c, "pre_coreset_data"), field(I, c, "points"))
        s.holds(f"{cname}.compute_metric = metric(original data, coreset points)", True if mv is ref else None, anchor=CS + "AbstractCoreset.compute_metric")
        if mv is not ref:
            s.equal(f"{cname}.compute_metric value", mv, ref, CS + "AbstractCoreset.compute_metric")


def coreset_too_large(s):
    I = s.interp()
    n, q, d = s.dim("n"), s.dim("q"), s.dim("d")
    Dc = s.cls(I, D + "Data")
    o = I.call(Dc, [s.array("X", n, d)], {})
    IX = set_shape(sym("IDQ", "int"), (q,))
    s.raises_iff("Coresubset rejects more points than the data has", I,
                 lambda: I.call(s.cls(I, CS + "Coresubset"), [I.call(Dc, [IX], {}), o], {}), nd.cmp("lt", n, q), anchor=CS + "AbstractCoreset.__check_init__")
    s.raises_iff("PseudoCoreset rejects more points than the data has", I,
                 lambda: I.call(s.cls(I, CS + "PseudoCoreset"), [I.call(Dc, [s.array("Z", q, d)], {}), o], {}), nd.cmp("lt", n, q), anchor=CS + "AbstractCoreset.__check_init__")
    for cname in ("Coresubset", "PseudoCoreset"):
        s.raises_iff(f"{cname} rejects array points", I, lambda: I.call(s.cls(I, CS + cname), [s.array("Z", q, d), o], {}), TRUE, ("TypeError",), CS + cname + ".__init__")
        s.raises_iff(f"{cname} rejects array data", I, lambda: I.call(s.cls(I, CS + cname), [I.call(Dc, [s.array("Z", q, d)], {}), s.array("X", n, d)], {}), TRUE, ("TypeError",), CS + cname + ".__init__")
