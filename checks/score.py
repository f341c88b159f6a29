"""Score matching: kernel density score, conversion to Stein kernels, sliced objective."""
from sa import nodes as nd
from sa.nodes import N, C, sym, set_shape, NONE, TRUE, FALSE, FACTS_LE

SM = "coreax.score_matching."


def kde(s):
    I = s.interp()
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    X, Q, q = s.array("X", n, d), s.array("Q", m, d), s.array("q", d)
    l = s.scalar("l")
    FACTS_LE.extend([(nd.ONE, n), (nd.ONE, m), (nd.ONE, d)])
    o = I.call(s.cls(I, SM + "KernelDensityMatching"), [], dict(length_scale=l))
    f = s.call(I, o, "match", X)
    A = SM + "KernelDensityMatching.match"
    s.equal("KDE score of a set of points", I.call(f, [Q], {}), s.spec(I, "score.kde_score", X, l, Q), A)
    s.equal("KDE score of one point", I.call(f, [q], {}), s.spec(I, "score.kde_score_one", X, l, q), A)


def sliced_loss(s):
    A = SM + "SlicedScoreMatching"
    I = s.interp()
    n, m, d = s.dim("n"), s.dim("m"), s.dim("d")
    X, V = s.array("X", n, d), s.array("V", n, m, d)
    net = sym("net", "scorefn")
    for an in (TRUE, FALSE):
        o = I.call(s.cls(I, A), [], dict(random_key=s.key(), random_generator=sym("gen", "func"), use_analytic=an))
        act = I.call(s.call(I, o, "_loss", net), [X, V], {})
        s.equal(f"sliced objective (analytic={nd.show(an)})", act, s.spec(I, "score.sliced_objective", an, net, X, V), A + "._loss")


def sliced_match(s):
    A = SM + "SlicedScoreMatching"
    I = s.interp()
    n, d, q, num, ep, bs, nm = (s.dim(x) for x in ("n", "d", "q", "num", "ep", "bs", "nm"))
    FACTS_LE.extend([(nd.ONE, x) for x in (n, d, q, num, bs, nm)])
    X, Q = s.array("X", n, d), s.array("Q", q, d)
    gen = I.get("vspec.score.generator")
    sg, gm = s.scalar("sigma"), s.scalar("gamma")
    opt = sym("optimiser", "optax.GradientTransformation")
    hid = set_shape(sym("hidden"), (s.dim("h"),))
    for an in (TRUE, FALSE):
        for nc in (TRUE, FALSE):
            o = I.call(s.cls(I, A), [], dict(random_key=s.key(), random_generator=gen, noise_conditioning=nc, use_analytic=an, num_random_vectors=num,
                                             num_epochs=ep, batch_size=bs, hidden_dims=hid, optimiser=opt, num_noise_models=nm, sigma=sg, gamma=gm))
            act = I.call(s.call(I, o, "match", X), [Q], {})
            ref = s.spec(I, "score.sliced_score", s.key(), gen, an, nc, sg, gm, nm, num, I.getattr(o, "learning_rate"), ep, bs, hid, I.getattr(o, "optimiser"), X, Q)
            s.equal(f"sliced score matching (analytic={nd.show(an)}, noise conditioning={nd.show(nc)})", act, ref, A + ".match")


def conversion(s):
    A = SM + "convert_stein_kernel"
    I = s.interp()
    n, d = s.dim("n"), s.dim("d")
    FACTS_LE.extend([(nd.ONE, n), (nd.ONE, d)])
    X, x, y = s.array("X", n, d), s.array("x", d), s.array("y", d)
    f = sym("score", "scorefn")
    l, os_ = s.scalar("l"), s.scalar("os")
    conv = I.get(A)
    base = s.opaque(I, "k", "coreax.kernels.ScalarValuedKernel")
    matcher = s.opaque(I, "matcher", SM + "ScoreMatching")
    se = I.call(s.cls(I, "coreax.kernels.SquaredExponentialKernel"), [], dict(length_scale=l, output_scale=os_))
    linear = I.call(s.cls(I, "coreax.kernels.LinearKernel"), [], dict(output_scale=os_))
    given = s.call(I, matcher, "match", X)

    def kde(ls):
        return s.call(I, I.call(s.cls(I, SM + "KernelDensityMatching"), [], dict(length_scale=ls)), "match", X)
    stein = I.call(s.cls(I, "coreax.kernels.SteinKernel"), [], dict(base_kernel=base, score_function=f))
    for label, k, m, bk, sc in (("base kernel, given matcher", base, matcher, base, given), ("Stein kernel, no matcher", stein, NONE, base, f),
                                ("Stein kernel, given matcher", stein, matcher, base, given), ("length scale of the kernel", se, NONE, se, kde(l)),
                                ("no length scale", linear, NONE, linear, kde(nd.ONE))):
        r = I.call(conv, [X, k, m], {})
        s.equal(f"converted Stein kernel ({label})", s.call(I, r, "compute_elementwise", x, y), s.spec(I, "algebra.stein", bk, sc, x, y), A)


def sliced_validation(s):
    I = s.interp()
    A = SM + "SlicedScoreMatching"
    mk = lambda **kw: I.call(s.cls(I, A), [], dict(random_key=s.key(), random_generator=sym("gen", "func"), optimiser=sym("optimiser", "optax.GradientTransformation"), **kw))
    for name, low in (("num_epochs", 0), ("batch_size", 0), ("num_random_vectors", 1), ("num_noise_models", 1)):
        p = set_shape(sym("p_" + name, "int"), ())
        s.raises_iff(f"{name} below {low} is rejected", I, lambda: mk(**{name: p}), nd.cmp("lt", p, C(low)), anchor=A + ".__check_init__")
