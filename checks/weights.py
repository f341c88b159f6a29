"""Weight optimisers and regularised least squares."""
from sa.framework import *
from .metrics import kern

W_ = "coreax.weights."
L = "coreax.least_squares."


def optimisers(s):
    I = s.interp()
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    for q in (n, m, d):
        FACTS_LE.append((nd.ONE, q))
    X, Y = s.array("X", n, d), s.array("Y", m, d)
    Dc = s.cls(I, "coreax.data.Data")
    dx, dy = I.call(Dc, [X], {}), I.call(Dc, [Y, s.array("V", m)], {})
    k, eps = kern(s, I, "k1"), s.scalar("eps")
    for name, ref in (("SBQWeightsOptimiser", "sbq"), ("MMDWeightsOptimiser", "mmd")):
        o = I.call(s.cls(I, W_ + name), [], dict(kernel=k))
        for label, a, b in (("data", dx, dy), ("arrays", X, Y)):
            s.equal(f"{name} ({label})", s.call(I, o, "solve", a, b, epsilon=eps), s.spec(I, "weights." + ref, k, X, Y, eps), W_ + name + ".solve")
        s.equal(f"{name} (block size)", s.call(I, o, "solve", dx, dy, epsilon=eps, block_size=s.dim("b"), unroll=C(2)),
                s.spec(I, "weights." + ref, k, X, Y, eps), W_ + name + ".solve")
        s.equal(f"{name} (default regularisation)", s.call(I, o, "solve", dx, dy), s.spec(I, "weights." + ref, k, X, Y, C(Fraction(1, 10 ** 10))), W_ + name + ".solve")
    G, z = s.array("G", m, m), s.array("z", m)
    s.equal("solve_qp: normalised minimiser on the simplex", I.call(I.get(W_ + "solve_qp"), [G, z], {}), s.spec(I, "weights.simplex_qp", G, z), W_ + "solve_qp")
    for name in ("SBQWeightsOptimiser", "MMDWeightsOptimiser"):
        o = I.call(s.cls(I, W_ + name), [], dict(kernel=k))
        sd = I.call(s.cls(I, "coreax.data.SupervisedData"), [X, s.array("SX", n, s.dim("p"))], {})
        s.raises_iff(f"{name} rejects supervised data", I, lambda: s.call(I, o, "solve", sd, dy), TRUE, ("ValueError",), W_ + name + ".solve")


def least_squares(s):
    I = s.interp()
    n, m, l = s.dim("n"), s.dim("m"), s.dim("l")
    A, T, E = s.array("A", n, n), s.array("T", n, m), s.array("E", n, n)
    lam, rc = s.scalar("lam"), s.scalar("rcond")
    key = s.key()
    o = I.call(s.cls(I, L + "MinimalEuclideanNormSolver"), [], dict(rcond=rc))
    s.equal("MinimalEuclideanNormSolver.solve", s.call(I, o, "solve", A, lam, T, E), s.spec(I, "weights.min_norm", A, lam, T, E, rc), L + "MinimalEuclideanNormSolver.solve")
    AA, TT = s.array("AA", l, n, n), s.array("TT", l, n, m)
    s.equal("solve_stack applies solve to every system", s.call(I, o, "solve_stack", AA, lam, TT, E),
            s.spec(I, "weights.stack", I.getattr(o, "solve"), AA, lam, TT, E), L + "RegularisedLeastSquaresSolver.solve_stack")
    R = L + "RandomisedEigendecompositionSolver"
    op = s.dim("op")
    for p in (0, 1, 2):
        for label, r in (("default cutoff", NONE), ("machine cutoff", C(-1)), ("given cutoff", C(Fraction(1, 1000)))):
            o = I.call(s.cls(I, R), [], dict(random_key=key, oversampling_parameter=op, power_iterations=C(p), rcond=r))
            s.equal(f"RandomisedEigendecompositionSolver.solve ({p} power iterations, {label})", s.call(I, o, "solve", A, lam, T, E),
                    s.spec(I, "weights.randomised", key, A, lam, T, E, op, C(p), r), R + ".solve")
        v = s.call(I, o, "randomised_eigendecomposition", A)
        ref = s.spec(I, "weights.eig", key, A, op, C(p))
        s.equal(f"randomised eigendecomposition ({p} power iterations)", v, ref, R + ".randomised_eigendecomposition")
