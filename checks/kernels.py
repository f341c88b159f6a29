"""Kernels: documented value, symmetry, analytic derivatives, composition, evaluation on data."""
from sa.framework import *
from sa.elem import *
from sa import norm as nm

K = "coreax.kernels."


def scalars(s, **kw):
    return {k: s.scalar(v) for k, v in kw.items()}


def catalogue(s, I):
    """(label, kernel object, dimension restriction, recorded finding for the divergence)"""
    out = []

    def add(cls, one_dim=False, **kw):
        out.append((cls, I.call(s.cls(I, K + cls), [], kw), one_dim))
    ls, os_ = s.scalar("ls"), s.scalar("os")
    add("LinearKernel", output_scale=os_, constant=s.scalar("cst"))
    add("PolynomialKernel", output_scale=os_, constant=s.scalar("cst"), degree=s.scalar("deg", "int"))
    add("ExponentialKernel", length_scale=ls, output_scale=os_)
    add("LaplacianKernel", length_scale=ls, output_scale=os_)
    add("SquaredExponentialKernel", length_scale=ls, output_scale=os_)
    add("PCIMQKernel", length_scale=ls, output_scale=os_)
    add("RationalQuadraticKernel", length_scale=ls, output_scale=os_, relative_weighting=s.scalar("rw"))
    add("PeriodicKernel", length_scale=ls, output_scale=os_, periodicity=s.scalar("per"))
    add("LocallyPeriodicKernel", periodic_length_scale=s.scalar("pls"), periodic_output_scale=s.scalar("pos"), periodicity=s.scalar("per"),
        squared_exponential_length_scale=s.scalar("sls"), squared_exponential_output_scale=s.scalar("sos"))
    add("PoissonKernel", one_dim=True, index=s.scalar("index"), output_scale=os_)
    for p in (0, 1, 2) if s.tier == "quick" else (0, 1, 2, 3):
        add("MaternKernel", length_scale=ls, output_scale=os_, degree=C(p))
    k1, k2 = s.opaque(I, "k1", K + "ScalarValuedKernel"), s.opaque(I, "k2", K + "ScalarValuedKernel")
    out.append(("AdditiveKernel", I.call(s.cls(I, K + "AdditiveKernel"), [k1, k2], {}), False))
    out.append(("ProductKernel", I.call(s.cls(I, K + "ProductKernel"), [k1, k2], {}), False))
    out.append(("ProductKernel(k,k)", I.call(s.cls(I, K + "ProductKernel"), [k1, k1], {}), False))
    for p in (1, 2, 3):
        out.append((f"PowerKernel({p})", I.call(s.cls(I, K + "PowerKernel"), [k1, C(p)], {}), False))
    return out


def points(s, one):
    d = nd.ONE if one else s.dim("d")
    return s.array("x1" if one else "x", d), s.array("y1" if one else "y", d), d


def gradients(s):
    I = s.interp()
    for label, ker, one in catalogue(s, I):
        x, y, d = points(s, one)
        name = label.split("(")[0]
        z = Norm()
        xn, yn = x.args[0], y.args[0]
        p = z.scalar(s.call(I, ker, "compute_elementwise", x, y))
        i = ZERO_P if one else ix(fresh())
        for meth, var in (("grad_x_elementwise", xn), ("grad_y_elementwise", yn)):
            g = s.call(I, ker, meth, x, y)
            poly_equal(s, f"{label}.{meth} = derivative of the kernel value", z, lambda: z.el(g, (i,), {}), lambda: diff(p, var, i), K + name + "." + meth, g)
        dv = s.call(I, ker, "divergence_x_grad_y_elementwise", x, y)

        def ref():
            if one:
                return diff(diff(p, yn, nm.ZERO), xn, nm.ZERO)
            w = fresh()
            gy = s.call(I, ker, "grad_y_elementwise", x, y)
            first = diff(p, yn, ix(w))
            return psum(diff(first, xn, ix(w)), w, z.dim(d, {}))
        alts = ()
        if name == "PeriodicKernel":
            alts = (("periodic-divergence-scale", lambda: periodic_known(s, I, z, x, y, d)),)
        if name == "LocallyPeriodicKernel":
            alts = (("periodic-divergence-scale", lambda: locally_periodic_known(s, I, z, x, y)),)
        poly_equal(s, f"{label}.divergence_x_grad_y_elementwise = trace of the mixed second derivative", z, lambda: z.scalar(dv), ref,
                   K + name + ".divergence_x_grad_y_elementwise", dv, alts)


def periodic_known(s, I, z, x, y, d):
    v = s.spec(I, "kernels.periodic_divergence_as_recorded", x, y, s.scalar("ls"), s.scalar("os"), s.scalar("per"))
    return z.scalar(v)


def locally_periodic_known(s, I, z, x, y):
    v = s.spec(I, "kernels.locally_periodic_divergence_as_recorded", x, y, *[s.scalar(n) for n in ("pls", "pos", "per", "sls", "sos")])
    return z.scalar(v)


ZERO_P = nm.ZERO


def poly_equal(s, label, z, act, ref, anchor, node=None, alts=()):
    z.imprecise.clear()
    try:
        a, b = act(), ref()
    except NoDiff:
        return s.add(label, UNKNOWN, "derivative not in closed form", s.anchor(anchor))
    except TooBig:
        return s.add(label, UNKNOWN, "normal form too large", s.anchor(anchor))
    if a.fp == b.fp:
        return s.add(label, OK)
    if z.imprecise:
        return s.add(label, UNKNOWN, "not fully modelled: " + z.imprecise[0], s.anchor(anchor))
    r = cp.cmp_poly(a, b, label)
    if r.status == BAD:
        for fid, f in alts:
            if f().fp == a.fp:
                return s.add(label, "finding", "", s.anchor(anchor), fid)
    s.add(label, r.status, r.why, s.anchor(anchor))


def symmetry(s):
    I = s.interp()
    for label, ker, one in catalogue(s, I):
        x, y, d = points(s, one)
        a = s.call(I, ker, "compute_elementwise", x, y)
        b = s.call(I, ker, "compute_elementwise", y, x)
        s.equal(f"{label}: k(x,y) = k(y,x)", a, b, K + label.split("(")[0] + ".compute_elementwise")


def formulas(s):
    I = s.interp()
    ls, os_ = s.scalar("ls"), s.scalar("os")
    for label, ker, one in catalogue(s, I):
        x, y, d = points(s, one)
        a = s.call(I, ker, "compute_elementwise", x, y)
        name = label.split("(")[0]
        k1, k2 = s.opaque(I, "k1", K + "ScalarValuedKernel"), s.opaque(I, "k2", K + "ScalarValuedKernel")
        args = {
            "LinearKernel": (os_, s.scalar("cst")), "PolynomialKernel": (os_, s.scalar("cst"), s.scalar("deg", "int")),
            "ExponentialKernel": (ls, os_), "LaplacianKernel": (ls, os_), "SquaredExponentialKernel": (ls, os_), "PCIMQKernel": (ls, os_),
            "RationalQuadraticKernel": (ls, os_, s.scalar("rw")), "PeriodicKernel": (ls, os_, s.scalar("per")),
            "LocallyPeriodicKernel": (s.scalar("pls"), s.scalar("pos"), s.scalar("per"), s.scalar("sls"), s.scalar("sos")),
            "PoissonKernel": (s.scalar("index"), os_), "AdditiveKernel": (k1, k2), "ProductKernel": (k1, k2),
        }.get(name)
        if label == "ProductKernel(k,k)":
            args = (k1, k1)
        if name == "PowerKernel":
            args = (k1, C(int(label[-2])))
        if name == "MaternKernel":
            deg = I.getattr(ker, "degree")
            args = (ls, os_)
            ref = s.spec(I, "kernels.matern%d" % int(deg.args[0]), x, y, *args)
        else:
            ref = s.spec(I, "kernels." + name, x, y, *args)
        s.equal(f"{label}: documented value", a, ref, K + name + ".compute_elementwise")


def opaque_kernel(s, I, name="k1"):
    return s.opaque(I, name, K + "ScalarValuedKernel")


def evaluation(s):
    """Evaluation on data sets: [i, j] is the value at row i of x and row j of y."""
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    X, Y = s.array("X", n, d), s.array("Y", m, d)
    ls, os_ = s.scalar("ls"), s.scalar("os")
    I = s.interp()
    ker = I.call(s.cls(I, K + "SquaredExponentialKernel"), [], dict(length_scale=ls, output_scale=os_))
    i, j = s.scalar("i", "int"), s.scalar("j", "int")
    for meth, rank in (("compute", 0), ("grad_x", 1), ("grad_y", 1), ("divergence_x_grad_y", 0)):
        a = s.call(I, ker, meth, X, Y)
        ref = s.spec(I, "evaluate.pairwise", I.getattr(ker, meth + "_elementwise"), X, Y)
        s.equal(f"{meth}(x, y)[i, j] is the value for (x_i, y_j)", a, ref, K + "ScalarValuedKernel." + meth)
        # single points are data sets of one row
        x, y = s.array("x", d), s.array("y", d)
        a = s.call(I, ker, meth, x, y)
        e = I.call(I.getattr(ker, meth + "_elementwise"), [x, y], {})
        ref = s.spec(I, "evaluate.as_single%d" % rank, e)
        s.equal(f"{meth} of two single points", a, ref, K + "ScalarValuedKernel." + meth)


def means(s):
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    for q in (n, m, d):
        FACTS_LE.append((nd.ONE, q))
    X, Y = s.array("X", n, d), s.array("Y", m, d)
    W, V = s.array("W", n), s.array("V", m)
    I = s.interp()
    ker = I.call(s.cls(I, K + "SquaredExponentialKernel"), [], dict(length_scale=s.scalar("ls"), output_scale=s.scalar("os")))
    D = s.cls(I, "coreax.data.Data")
    dx, dy = I.call(D, [X, W], {}), I.call(D, [Y, V], {})
    one_x, one_y = s.spec(I, "evaluate.ones", X), s.spec(I, "evaluate.ones", Y)
    b, c = s.dim("b"), s.dim("c")
    FACTS_LE.append((nd.ONE, b)); FACTS_LE.append((nd.ONE, c)); FACTS_LE.extend([(b, n), (b, m), (c, n), (c, m)])
    k = I.getattr(ker, "compute_elementwise")
    blocks = [("no blocks", NONE), ("equal blocks", b), ("unequal blocks", nd.raw("tuple", b, c)), ("single-row blocks", nd.ONE)]
    for bl, bs in blocks:
        for un in (nd.ONE, C(3)):
            if un is not nd.ONE and bl != "unequal blocks":
                continue
            for (label, p, q, wp, wq) in (("weighted", dx, dy, W, V), ("arrays", X, Y, one_x, one_y)):
                for ax in (NONE, nd.ZERO, nd.ONE):
                    if label == "arrays" and bl != "no blocks":
                        continue
                    a = s.call(I, ker, "compute_mean", p, q, axis=ax, block_size=bs, unroll=un)
                    ref = s.spec(I, "evaluate.mean", k, X, Y, wp, wq, ax)
                    s.equal(f"compute_mean(axis={nd.show(ax)}, {label}, {bl}, unroll={nd.show(un)})", a, ref, K + "ScalarValuedKernel.compute_mean")
        a = s.call(I, ker, "gramian_row_mean", dx, block_size=bs)
        ref = s.spec(I, "evaluate.mean", k, X, X, W, W, nd.ZERO)
        s.equal(f"gramian_row_mean({bl})", a, ref, K + "ScalarValuedKernel.gramian_row_mean")
