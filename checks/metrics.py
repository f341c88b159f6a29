"""Discrepancy metrics."""
from sa.framework import *

M = "coreax.metrics."
K = "coreax.kernels."


def kern(s, I, name):
    return s.opaque(I, name, K + "ScalarValuedKernel")


def mmd(s):
    I = s.interp()
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    for q in (n, m, d):
        FACTS_LE.append((nd.ONE, q))
    X, Y, W, V = s.array("X", n, d), s.array("Y", m, d), s.array("W", n), s.array("V", m)
    Dc = s.cls(I, "coreax.data.Data")
    dx, dy = I.call(Dc, [X, W], {}), I.call(Dc, [Y, V], {})
    k = kern(s, I, "k1")
    b, c = s.dim("b"), s.dim("c")
    FACTS_LE.extend([(nd.ONE, b), (nd.ONE, c)] + [(p, q) for p in (b, c) for q in (n, m)])
    o = I.call(s.cls(I, M + "MMD"), [], dict(kernel=k))
    ref = s.spec(I, "metrics.mmd", k, X, Y, W, V)
    for bl, bs in (("default", NONE), ("blocks", b), ("block pair", nd.raw("tuple", b, c)), ("partial blocks", nd.raw("tuple", NONE, c))):
        a = s.call(I, o, "compute", dx, dy, **({} if bs is NONE else dict(block_size=bs)))
        s.equal(f"MMD ({bl})", a, ref, M + "MMD.compute")
    # concrete kernel: the means are computed by the library as well
    se = I.call(s.cls(I, K + "SquaredExponentialKernel"), [], dict(length_scale=s.scalar("ls"), output_scale=s.scalar("os")))
    o = I.call(s.cls(I, M + "MMD"), [], dict(kernel=se))
    ref = s.spec(I, "metrics.mmd", se, X, Y, W, V)
    for bl, bs in (("default", NONE), ("block pair", nd.raw("tuple", b, c))):
        a = s.call(I, o, "compute", dx, dy, block_size=bs)
        s.equal(f"MMD, squared exponential kernel ({bl})", a, ref, M + "MMD.compute")
    # symmetry of the arguments
    a = s.call(I, o, "compute", dy, dx)
    s.equal("MMD(x, y) = MMD(y, x)", a, ref, M + "MMD.compute")


def jmmd(s):
    I = s.interp()
    n, m, d, p = s.dim("n"), s.dim("m"), s.dim("d"), s.dim("p")
    X, Y, W, V = s.array("X", n, d), s.array("Y", m, d), s.array("W", n), s.array("V", m)
    SX, SY = s.array("SX", n, p), s.array("SY", m, p)
    Sc = s.cls(I, "coreax.data.SupervisedData")
    dx, dy = I.call(Sc, [X, SX, W], {}), I.call(Sc, [Y, SY, V], {})
    k, l = kern(s, I, "k1"), kern(s, I, "k2")
    o = I.call(s.cls(I, M + "JMMD"), [], dict(feature_kernel=k, response_kernel=l))
    s.equal("JMMD", s.call(I, o, "compute", dx, dy), s.spec(I, "metrics.jmmd", k, l, X, SX, W, Y, SY, V), M + "JMMD.compute")


def amcmd(s):
    I = s.interp()
    n, m, d, p, q = s.dim("n"), s.dim("m"), s.dim("d"), s.dim("p"), s.dim("q")
    X, Y, W, V = s.array("X", n, d), s.array("Y", m, d), s.array("W", n), s.array("V", m)
    SX, SY = s.array("SX", n, p), s.array("SY", m, p)
    Sc = s.cls(I, "coreax.data.SupervisedData")
    dx, dy = I.call(Sc, [X, SX, W], {}), I.call(Sc, [Y, SY, V], {})
    k, l, lam = kern(s, I, "k1"), kern(s, I, "k2"), s.scalar("lam")
    o = I.call(s.cls(I, M + "AMCMD"), [], dict(feature_kernel=k, response_kernel=l, regularisation_parameter=lam))
    s.equal("AMCMD", s.call(I, o, "compute", dx, dy), s.spec(I, "metrics.amcmd", k, l, lam, X, SX, Y, SY, X), M + "AMCMD.compute")
    Z = s.array("Z", q, d)
    dz = I.call(s.cls(I, "coreax.data.Data"), [Z], {})
    s.equal("AMCMD with weighting data", s.call(I, o, "compute", dx, dy, weighting_data=dz),
            s.spec(I, "metrics.amcmd", k, l, lam, X, SX, Y, SY, Z), M + "AMCMD.compute")
    I = s.interp()
    s.raises_iff("AMCMD rejects negative regularisation", I,
                 lambda: I.call(s.cls(I, M + "AMCMD"), [], dict(feature_kernel=k, response_kernel=l, regularisation_parameter=lam)), nd.cmp("lt", lam, nd.ZERO), anchor=M + "AMCMD")


def ksd(s):
    I = s.interp()
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    for q in (n, m, d):
        FACTS_LE.append((nd.ONE, q))
    X, Y, W, V = s.array("X", n, d), s.array("Y", m, d), s.array("W", n), s.array("V", m)
    Dc = s.cls(I, "coreax.data.Data")
    dx, dy = I.call(Dc, [X, W], {}), I.call(Dc, [Y, V], {})
    k = kern(s, I, "k1")
    sk = I.call(s.cls(I, K + "SteinKernel"), [], dict(base_kernel=k, score_function=sym("score", "scorefn")))
    o = I.call(s.cls(I, M + "KSD"), [], dict(kernel=sk))
    b = s.dim("b")
    FACTS_LE.extend([(nd.ONE, b), (b, m), (b, n)])
    ref = s.spec(I, "metrics.ksd", sk, Y, V)
    for bl, bs in (("default", NONE), ("blocks", b)):
        s.equal(f"KSD ({bl})", s.call(I, o, "compute", dx, dy, block_size=bs), ref, M + "KSD.compute")
    for lap in (TRUE, FALSE):
        for reg in (TRUE, FALSE):
            if lap is FALSE and reg is FALSE:
                continue
            bw = I.call(I.get("builtins.getattr"), [k, C("length_scale"), NONE], {}) if False else None
            for kn, kk, bwv in (("opaque kernel", k, None), ("squared exponential", I.call(s.cls(I, K + "SquaredExponentialKernel"), [], dict(length_scale=s.scalar("ls"))), s.scalar("ls"))):
                if bwv is None:
                    continue
                sk2 = I.call(s.cls(I, K + "SteinKernel"), [], dict(base_kernel=kk, score_function=sym("score", "scorefn")))
                o2 = I.call(s.cls(I, M + "KSD"), [], dict(kernel=sk2))
                a = s.call(I, o2, "compute", dx, dy, laplace_correct=lap, regularise=reg)
                s.equal(f"KSD (laplace={nd.show(lap)}, regularise={nd.show(reg)}, {kn})", a,
                        s.spec(I, "metrics.ksd_corrected", sk2, Y, V, X, W, lap, reg, bwv), M + "KSD.compute")
    # the score of the reference data is used when a score-matching method is given
    sm = s.opaque(I, "matcher", "coreax.score_matching.ScoreMatching")
    o3 = I.call(s.cls(I, M + "KSD"), [], dict(kernel=k, score_matching=sm))
    a = s.call(I, o3, "compute", dx, dy)
    sk3 = I.call(s.cls(I, K + "SteinKernel"), [], dict(base_kernel=k, score_function=s.call(I, sm, "match", X)))
    s.equal("KSD uses the score matched to the reference data", a, s.spec(I, "metrics.ksd", sk3, Y, V), M + "KSD.compute")
