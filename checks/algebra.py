"""Composition of kernels, the Stein kernel, derived kernel parameters."""
from sa.framework import *

K = "coreax.kernels."


def operators(s):
    I = s.interp()
    d = s.dim("d")
    x, y = s.array("x", d), s.array("y", d)
    k1, k2 = s.opaque(I, "k1", K + "ScalarValuedKernel"), s.opaque(I, "k2", K + "ScalarValuedKernel")
    cst = s.scalar("cc")
    val = lambda k: s.call(I, k, "compute_elementwise", x, y)
    v1, v2 = val(k1), val(k2)
    for opn in ("add", "mul"):
        k = s.spec(I, "algebra." + opn, k1, k2)
        s.equal(f"k1 {opn} k2", val(k), s.spec(I, "algebra." + opn, v1, v2), K + f"ScalarValuedKernel.__{opn}__")
        for label, c in (("integer", C(3)), ("float", C(Fraction(5, 2))), ("unit", nd.ONE), ("zero", nd.ZERO)):
            ref = s.spec(I, "algebra." + opn, v1, c)
            s.equal(f"k1 {opn} {label}", val(s.spec(I, "algebra." + opn, k1, c)), ref, K + f"ScalarValuedKernel.__{opn}__")
            s.equal(f"{label} {opn} k1", val(s.spec(I, "algebra." + opn, c, k1)), ref, K + f"ScalarValuedKernel.__r{opn}__")
            # derivatives of combinations with constants
            kk = s.spec(I, "algebra." + opn, k1, c)
            for g in ("grad_x_elementwise", "grad_y_elementwise", "divergence_x_grad_y_elementwise"):
                b = s.call(I, k1, g, x, y)
                ref2 = b if opn == "add" else s.spec(I, "algebra.mul", b, c)
                s.equal(f"{g} of k1 {opn} {label}", s.call(I, kk, g, x, y), ref2, K + ("AdditiveKernel." if opn == "add" else "ProductKernel.") + g)
    for p in (1, 2, 3):
        s.equal(f"k1 ** {p}", val(s.spec(I, "algebra.power", k1, C(p))), s.spec(I, "algebra.power", v1, C(p)), K + "ScalarValuedKernel.__pow__")
    # nesting
    e = s.spec(I, "algebra.mul", s.spec(I, "algebra.add", k1, k2), s.spec(I, "algebra.add", k1, C(2)))
    ref = s.spec(I, "algebra.mul", s.spec(I, "algebra.add", v1, v2), s.spec(I, "algebra.add", v1, C(2)))
    s.equal("(k1 + k2) * (k1 + 2)", val(e), ref, K + "ScalarValuedKernel.__mul__")
    kc = s.spec(I, "algebra.add", k1, C(3))
    X, Y = s.array("X", s.dim("n"), d), s.array("Y", s.dim("m"), d)


def stein(s):
    I = s.interp()
    d = s.dim("d")
    x, y = s.array("x", d), s.array("y", d)
    k1 = s.opaque(I, "k1", K + "ScalarValuedKernel")
    sc = sym("score", "fn")
    SK = s.cls(I, K + "SteinKernel")
    k = I.call(SK, [], dict(base_kernel=k1, score_function=score_fn(s, I, d)))
    a = s.call(I, k, "compute_elementwise", x, y)
    ref = s.spec(I, "algebra.stein", k1, score_fn(s, I, d), x, y)
    s.equal("Stein kernel value", a, ref, K + "SteinKernel.compute_elementwise")
    b = s.call(I, k, "compute_elementwise", y, x)
    ls, os_ = s.scalar("ls"), s.scalar("os")
    for cn, kw in (("SquaredExponentialKernel", dict(length_scale=ls, output_scale=os_)), ("PCIMQKernel", dict(length_scale=ls, output_scale=os_))):
        k = I.call(SK, [], dict(base_kernel=I.call(s.cls(I, K + cn), [], kw), score_function=score_fn(s, I, d)))
        s.equal(f"Stein kernel of {cn} is symmetric", s.call(I, k, "compute_elementwise", x, y), s.call(I, k, "compute_elementwise", y, x), K + "SteinKernel.compute_elementwise")


def score_fn(s, I, d):
    return I.get("vspec.algebra.score") if False else sym("score", "scorefn")


def derived(s):
    I = s.interp()
    ls, os_, dim = s.scalar("ls"), s.scalar("os"), s.scalar("dim", "int")
    k = I.call(s.cls(I, K + "SquaredExponentialKernel"), [], dict(length_scale=ls, output_scale=os_))
    r = s.call(I, k, "get_sqrt_kernel", dim)
    A = K + "SquaredExponentialKernel.get_sqrt_kernel"
    s.equal("square-root kernel length scale", I.getattr(r, "length_scale"), s.spec(I, "algebra.sqrt_length_scale", ls, os_, dim), A)
    s.equal("square-root kernel output scale", I.getattr(r, "output_scale"), s.spec(I, "algebra.sqrt_output_scale", ls, os_, dim), A)
    n, d = s.dim("n"), s.dim("d")
    X = s.array("X", n, d)
    f = I.get("coreax.kernels.util.median_heuristic")
    s.equal("median heuristic", I.call(f, [X], {}), s.spec(I, "algebra.median_heuristic", X), "coreax.kernels.util.median_heuristic")
