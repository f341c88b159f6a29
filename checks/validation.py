"""Invalid settings are rejected when the object is built (or the solve is started), valid ones are accepted."""
from sa.framework import *

K = "coreax.kernels."
SV = "coreax.solvers."


def pos(x):
    return nd.cmp("le", x, nd.ZERO)


def neg(x):
    return nd.cmp("lt", x, nd.ZERO)


def kernels(s):
    I = s.interp()
    f = lambda n: s.scalar("p_" + n)
    i = lambda n: s.scalar("i_" + n, "int")
    ls, os_, c, rw, dg, per, ix = f("ls"), f("os"), f("c"), f("rw"), i("dg"), f("per"), f("ix")
    two = dict(length_scale=ls, output_scale=os_)
    table = [
        ("LinearKernel", dict(output_scale=os_, constant=c), nd.lor(pos(os_), neg(c))),
        ("PolynomialKernel", dict(output_scale=os_, constant=c, degree=dg), nd.lor(pos(os_), neg(c), nd.cmp("lt", dg, C(2)))),
        ("RationalQuadraticKernel", dict(two, relative_weighting=rw), nd.lor(pos(ls), pos(os_), neg(rw))),
        ("MaternKernel", dict(two, degree=dg), nd.lor(pos(ls), pos(os_), neg(dg))),
        ("PeriodicKernel", dict(two, periodicity=per), nd.lor(pos(ls), pos(os_))),
        ("PoissonKernel", dict(index=ix, output_scale=os_), nd.lor(pos(ix), nd.cmp("le", nd.ONE, ix), pos(os_))),
        ("LocallyPeriodicKernel", dict(periodic_length_scale=ls, periodic_output_scale=os_, squared_exponential_length_scale=c, squared_exponential_output_scale=rw, periodicity=per),
         nd.lor(pos(ls), pos(os_), pos(c), pos(rw))),
    ] + [(n, two, nd.lor(pos(ls), pos(os_))) for n in ("ExponentialKernel", "LaplacianKernel", "SquaredExponentialKernel", "PCIMQKernel")]
    for name, kw, cond in table:
        s.raises_iff(f"{name} rejects exactly its invalid parameters", I, lambda: I.call(s.cls(I, K + name), [], kw), cond, anchor=K + name + ".__check_init__")
    k = s.opaque(I, "k", K + "ScalarValuedKernel")
    s.raises_iff("PowerKernel rejects powers below one", I, lambda: I.call(s.cls(I, K + "PowerKernel"), [], dict(base_kernel=k, power=dg)), nd.cmp("lt", dg, nd.ONE), anchor=K + "PowerKernel.__check_init__")
    s.raises_iff("PowerKernel rejects fractional powers", I, lambda: I.call(s.cls(I, K + "PowerKernel"), [], dict(base_kernel=k, power=C(Fraction(3, 2)))), TRUE, anchor=K + "PowerKernel.__check_init__")
    for name in ("AdditiveKernel", "ProductKernel"):
        for label, a, b, cond in (("kernels", k, k, FALSE), ("a number first", C(1), k, TRUE), ("a number second", k, C(1), TRUE)):
            s.raises_iff(f"{name} of {label}", I, lambda: I.call(s.cls(I, K + name), [a, b], {}), cond, ("TypeError",), anchor=K + "DuoCompositeKernel.__check_init__")
    s.raises_iff("PowerKernel needs a kernel", I, lambda: I.call(s.cls(I, K + "PowerKernel"), [C(1), C(2)], {}), TRUE, ("TypeError",), anchor=K + "UniCompositeKernel.__check_init__")
    for opn in ("add", "mul"):
        s.raises_iff(f"{opn} rejects operands that are neither kernel nor number", I, lambda: s.spec(I, "algebra." + opn, k, C("text")), TRUE, anchor=K + f"ScalarValuedKernel.__{opn}__")
        for label, cst, cond in (("negative", C(-1), TRUE), ("zero", nd.ZERO, FALSE), ("positive", C(2), FALSE)):
            s.raises_iff(f"{opn} with a {label} number", I, lambda: s.spec(I, "algebra." + opn, k, cst), cond, anchor=K + "_Constant.__check_init__" if s.has("coreax.kernels.base._Constant") else K + f"ScalarValuedKernel.__{opn}__")


def solvers(s):
    I = s.interp()
    m = s.scalar("m_", "int")
    k = s.opaque(I, "k", K + "ScalarValuedKernel")
    key = s.key()
    for name, kw in (("RandomSample", dict(random_key=key)), ("RPCholesky", dict(random_key=key, kernel=k)), ("KernelHerding", dict(kernel=k)), ("SteinThinning", dict(kernel=k)),
                     ("GreedyKernelPoints", dict(random_key=key, feature_kernel=k)), ("KernelThinning", dict(random_key=key, kernel=k, delta=C(Fraction(1, 2)), sqrt_kernel=k)),
                     ("CompressPlusPlus", dict(random_key=key, kernel=k, delta=C(Fraction(1, 2)), sqrt_kernel=k, g=C(1)))):
        s.raises_iff(f"{name} needs a positive coreset size", I, lambda: I.call(s.cls(I, SV + name), [], dict(kw, coreset_size=m)), pos(m), anchor="coreax.solvers.base.ExplicitSizeSolver.__check_init__")
    for name in ("CaratheodoryRecombination", "TreeRecombination"):
        for mode, cond in (("implicit-explicit", FALSE), ("implicit", FALSE), ("explicit", FALSE), ("other", TRUE)):
            s.raises_iff(f"{name} with mode '{mode}'", I, lambda: I.call(s.cls(I, SV + name), [], dict(test_functions=NONE, mode=C(mode))), cond, anchor="coreax.solvers.recombination.RecombinationSolver.__check_init__")
    c, l = s.scalar("c_", "int"), s.scalar("l_", "int")
    FACTS_LE.append((nd.ONE, c))
    base = I.call(s.cls(I, SV + "RandomSample"), [], dict(coreset_size=c, random_key=key))
    s.raises_iff("MapReduce needs leaves larger than the coreset", I, lambda: I.call(s.cls(I, SV + "MapReduce"), [], dict(base_solver=base, leaf_size=l)), nd.cmp("le", l, c), anchor=SV + "MapReduce.__check_init__")
    rec = I.call(s.cls(I, SV + "CaratheodoryRecombination"), [], dict(test_functions=NONE))
    s.raises_iff("MapReduce needs a base solver of explicit size", I, lambda: I.call(s.cls(I, SV + "MapReduce"), [], dict(base_solver=rec, leaf_size=l)), TRUE, anchor=SV + "MapReduce.__check_init__")


def oversize(s):
    """Asking for a coreset larger than the data fails with a ValueError; a size up to the data's is accepted."""
    I = s.interp()
    n, d = s.dim("n"), s.dim("d")
    m = s.dim("m")
    FACTS_LE.extend([(nd.ONE, n), (nd.ONE, m)])
    X = s.array("X", n, d)
    Y = s.array("Y1", n, 1)
    k = s.opaque(I, "k", K + "ScalarValuedKernel")
    key = s.key()
    data = I.call(s.cls(I, "coreax.data.Data"), [X], {})
    sup = I.call(s.cls(I, "coreax.data.SupervisedData"), [X, Y], {})
    stein = I.call(s.cls(I, K + "SteinKernel"), [], dict(base_kernel=k, score_function=sym("score", "scorefn")))
    half = dict(random_key=key, kernel=k, delta=C(Fraction(1, 2)), sqrt_kernel=k)
    table = (("RPCholesky", dict(random_key=key, kernel=k), data, True), ("KernelHerding", dict(kernel=k), data, True), ("SteinThinning", dict(kernel=stein), data, True),
             ("GreedyKernelPoints", dict(random_key=key, feature_kernel=k), sup, True), ("RandomSample", dict(random_key=key), data, True),
             ("RandomSample", dict(random_key=key, unique=FALSE), data, True), ("KernelThinning", half, data, False), ("CompressPlusPlus", dict(half, g=C(1)), data, False))
    base = list(FACTS_LE)
    for name, kw, ds, exact in table:
        o = I.call(s.cls(I, SV + name), [], dict(kw, coreset_size=m))
        label = name + (", with replacement" if "unique" in kw else "")
        for fact, want, text in (((nd.add(n, nd.ONE), m), True, "more points than the data has are rejected"), ((m, n), False, "no size up to the data's is rejected")):
            if want is False and not exact:
                continue
            FACTS_LE[:] = base + [fact]
            v, ev = s.raised(I, lambda: s.call(I, o, "reduce", ds))
            hits = [c for x, c, _ in ev if x == "ValueError"]
            FACTS_LE[:] = base
            sure = any(c is TRUE for c in hits)
            free = [c for c in hits if not any(x.op == "caught" for x in _nodes(c))]
            s.holds(f"{label}: {text}", sure if want else not free, "the ValueError is missing" if want else f"raises when {[nd.show(c)[:80] for c in free[:2]]}", anchor=SV + name + ".reduce")


def _nodes(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, N) and x.id not in seen:
            seen.add(x.id)
            yield x
            st.extend(x.args)


def numerics(s):
    I = s.interp()
    L = "coreax.least_squares."
    key = s.key()
    p, q, r, lam = s.scalar("o_", "int"), s.scalar("w_", "int"), s.scalar("r_"), s.scalar("lam_")
    R = L + "RandomisedEigendecompositionSolver"
    mk = lambda **kw: I.call(s.cls(I, R), [], dict(dict(random_key=key), **kw))
    s.raises_iff("oversampling must be positive", I, lambda: mk(oversampling_parameter=p), pos(p), anchor=R + ".__check_init__")
    s.raises_iff("power iterations must not be negative", I, lambda: mk(power_iterations=q), neg(q), anchor=R + ".__check_init__")
    s.raises_iff("cutoff must be non-negative or -1", I, lambda: mk(rcond=r), nd.land(neg(r), nd.lnot(nd.cmp("eq", r, C(-1)))), anchor=R + ".__check_init__")
    o = mk()
    n, m = s.dim("n"), s.dim("m")
    s.raises_iff("the decomposed array must be square", I, lambda: s.call(I, o, "randomised_eigendecomposition", s.array("AR", n, m)), nd.lnot(nd.cmp("eq", n, m)), anchor=R + ".randomised_eigendecomposition")
    s.raises_iff("the decomposed array must be two-dimensional", I, lambda: s.call(I, o, "randomised_eigendecomposition", s.array("A3", n, n, n)), TRUE, anchor=R + ".randomised_eigendecomposition")
    k = s.opaque(I, "k", K + "ScalarValuedKernel")
    s.raises_iff("AMCMD regularisation must not be negative", I, lambda: I.call(s.cls(I, "coreax.metrics.AMCMD"), [], dict(feature_kernel=k, response_kernel=k, regularisation_parameter=lam)), neg(lam), anchor="coreax.metrics.AMCMD.__check_init__")
