"""Coresubset solvers."""
from sa.framework import *
from sa.ops import tup
from .metrics import kern

SV = "coreax.solvers."
K = "coreax.kernels."


class Setup:
    """A data set of n points, a coresubset of q of them, a solver for m points."""

    def __init__(self, s, I):
        self.n, self.m, self.q, self.d, self.p = s.dim("n"), s.dim("m"), s.dim("q"), s.dim("d"), s.dim("p")
        for a in (self.n, self.m, self.q, self.d, self.p):
            FACTS_LE.append((nd.ONE, a))
        FACTS_LE.extend([(self.m, self.n), (self.q, self.n)])
        self.X, self.W = s.array("X", self.n, self.d), s.array("W", self.n)
        self.S = s.array("S", self.n, self.p)
        self.IDX = set_shape(sym("IDXq", "int"), (self.q,))
        self.CW = s.array("CW", self.q)
        D = s.cls(I, "coreax.data.Data")
        self.data = I.call(D, [self.X, self.W], {})
        self.sup = I.call(s.cls(I, "coreax.data.SupervisedData"), [self.X, self.S, self.W], {})
        self.D = D
        self.CO = s.cls(I, "coreax.coreset.Coresubset")
        self.cs = I.call(self.CO, [I.call(D, [self.IDX, self.CW], {}), self.data], {})
        self.cs_sup = I.call(self.CO, [I.call(D, [self.IDX, self.CW], {}), self.sup], {})
        self.k = kern(s, I, "k1")
        self.key = s.key()
        self.zm = s.spec(I, "solvers.zeros", self.m)
        self.om = s.spec(I, "solvers.ones", self.m)


def fld(I, o, *names):
    for f in names:
        o = I.getattr(o, f)
    return o


def item(I, t, i):
    return t.args[i] if t.op in ("tuple", "list") else nd.index(t, (C(i),)) if hasattr(nd, "index") else None


def result(s, I, u, label, r, ref, anchor, dataset=None, alts=(), weights=True, x=None):
    """The result is a coresubset of the caller's data with the reference indices (all of weight one)."""
    c = item(I, r, 0)
    s.equal(label + ": indices", fld(I, c, "unweighted_indices"), ref, anchor, alts, alts_first=bool(alts))
    if weights:
        s.equal(label + ": weights", fld(I, c, "points", "weights"), u.om, anchor)
    s.equal(label + ": refers to the caller's data", fld(I, c, "pre_coreset_data"), dataset if dataset is not None else u.data, anchor)
    s.equal(label + ": points are rows of the data", fld(I, c, "points", "data"), s.spec(I, "data.rows", u.X if x is None else x, fld(I, c, "unweighted_indices")), anchor)
    return c


def herding_refine(s):
    I = s.interp()
    u = Setup(s, I)
    T = s.scalar("T")
    A = SV + "KernelHerding"
    HS = s.cls(I, SV + "coresubset.HerdingState")
    G = s.array("G", u.n)
    b = s.dim("b")
    for uq in (TRUE, FALSE):
        for prob in (TRUE, FALSE):
            args = dict(coreset_size=u.m, kernel=u.k, unique=uq, probabilistic=prob, temperature=T, random_key=u.key)
            o = I.call(s.cls(I, A), [], args)
            mean = s.call(I, u.k, "gramian_row_mean", u.data)
            lab = f"(unique={nd.show(uq)}, probabilistic={nd.show(prob)})"
            ref = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.IDX, u.CW, u.m, uq, mean, prob, T, u.key)
            r = s.call(I, o, "refine", u.cs)
            result(s, I, u, "KernelHerding.refine " + lab, r, ref, A + ".refine")
            s.equal("KernelHerding.refine state " + lab, fld(I, item(I, r, 1), "gramian_row_mean"), mean, A + ".refine")
            # with a state
            refg = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.IDX, u.CW, u.m, uq, G, prob, T, u.key)
            st = I.call(HS, [G], {})
            r = s.call(I, o, "refine", u.cs, st)
            result(s, I, u, "KernelHerding.refine, given state " + lab, r, refg, A + ".refine")
            s.equal("KernelHerding.refine, state is handed on " + lab, fld(I, item(I, r, 1), "gramian_row_mean"), G, A + ".refine")
            # supervised data
            r = s.call(I, o, "refine", u.cs_sup)
            mean2 = s.call(I, u.k, "gramian_row_mean", u.sup)
            ref2 = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.IDX, u.CW, u.m, uq, mean2, prob, T, u.key)
            c = result(s, I, u, "KernelHerding.refine, supervised " + lab, r, ref2, A + ".refine", u.sup)
            s.equal("KernelHerding.refine, supervised responses " + lab, fld(I, c, "points", "supervision"),
                    s.spec(I, "data.rows", u.S, fld(I, c, "unweighted_indices")), A + ".refine")
            # reduction is refinement of an empty coresubset
            r = s.call(I, o, "reduce", u.data)
            ref = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.zm, u.zm, u.m, uq, mean, prob, T, u.key)
            result(s, I, u, "KernelHerding.reduce " + lab, r, ref, A + ".reduce")
            s.equal("KernelHerding.reduce state " + lab, fld(I, item(I, r, 1), "gramian_row_mean"), mean, A + ".reduce")
            r = s.call(I, o, "reduce", u.data, st)
            ref = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.zm, u.zm, u.m, uq, G, prob, T, u.key)
            result(s, I, u, "KernelHerding.reduce, given state " + lab, r, ref, A + ".reduce")
    ob = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=u.k, block_size=b, unroll=C(2)))
    ref = s.spec(I, "solvers.herding", u.k, u.X, u.W, u.IDX, u.CW, u.m, TRUE, mean, FALSE, nd.ONE, u.key)
    result(s, I, u, "KernelHerding.refine, blocks", s.call(I, ob, "refine", u.cs), ref, A + ".refine")


def herding_iterative(s):
    I = s.interp()
    u = Setup(s, I)
    T = s.scalar("T")
    A = SV + "KernelHerding"
    it = s.dim("it")
    TS = s.array("TS", it)
    G = s.array("G", u.n)
    st = I.call(s.cls(I, SV + "coresubset.HerdingState"), [G], {})
    for uq, prob in ((TRUE, TRUE), (FALSE, TRUE), (TRUE, FALSE)):
        o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=u.k, unique=uq, probabilistic=prob, temperature=T, random_key=u.key))
        for label, sch in (("schedule", TS), ("constant temperature", NONE)):
            for sl, state, mean in (("", NONE, s.call(I, u.k, "gramian_row_mean", u.data)), (", given state", st, G)):
                r = s.call(I, o, "reduce_iterative", u.data, state, num_iterations=it, t_schedule=sch)
                ref = s.spec(I, "solvers.herding_iterative", u.k, u.X, u.W, u.m, uq, mean, prob, T, u.key, it, sch)
                lab = f"KernelHerding.reduce_iterative (unique={nd.show(uq)}, probabilistic={nd.show(prob)}, {label}{sl})"
                c = item(I, r, 0)
                s.equal(lab + ": indices", fld(I, c, "unweighted_indices"), ref, A + ".reduce_iterative")
                s.equal(lab + ": data", fld(I, c, "pre_coreset_data"), u.data, A + ".reduce_iterative")
                s.equal(lab + ": state", fld(I, item(I, r, 1), "gramian_row_mean"), mean, A + ".reduce_iterative")


def random_sample(s):
    I = s.interp()
    u = Setup(s, I)
    A = SV + "RandomSample"
    for wt in (TRUE, FALSE):
        for uq in (TRUE, FALSE):
            o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, random_key=u.key, weighted=wt, unique=uq))
            for dl, ds in (("", u.data), (", supervised", u.sup)):
                ref = s.spec(I, "solvers.sample", u.key, u.n, u.m, u.W if wt is TRUE else NONE, nd.lnot(uq))
                result(s, I, u, f"RandomSample.reduce (weighted={nd.show(wt)}, unique={nd.show(uq)}{dl})", s.call(I, o, "reduce", ds), ref, A + ".reduce", ds)


def stein_thinning(s):
    I = s.interp()
    u = Setup(s, I)
    A = SV + "SteinThinning"
    sk = s.opaque(I, "sk", K + "SteinKernel")
    sm = s.opaque(I, "matcher", "coreax.score_matching.ScoreMatching")
    conv = I.get("coreax.score_matching.convert_stein_kernel")
    bw = s.scalar("bw")
    cases = [("Stein kernel", sk, NONE), ("kernel and score matching", u.k, sm), ("Stein kernel and score matching", sk, sm), ("plain kernel", u.k, NONE)]
    for kl, k, m_ in cases:
        eff = I.call(conv, [u.X, k, m_], {})
        for uq in (TRUE, FALSE):
            for reg, lam in ((TRUE, NONE), (TRUE, s.scalar("lam")), (FALSE, NONE)):
                o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=k, score_matching=m_, unique=uq, regularise=reg, regulariser_lambda=lam, kde_bw_method=bw))
                lab = f"SteinThinning ({kl}, unique={nd.show(uq)}, regularise={nd.show(reg)}{', given lambda' if lam is not NONE else ''})"
                for ml, call, idx, cw in ((".refine", lambda: s.call(I, o, "refine", u.cs), u.IDX, u.CW), (".reduce", lambda: s.call(I, o, "reduce", u.data), u.zm, u.zm)):
                    ref = s.spec(I, "solvers.stein", eff, eff, u.X, u.W, idx, cw, u.m, uq, reg, lam, bw)
                    alt = s.spec(I, "solvers.stein", k, eff, u.X, u.W, idx, cw, u.m, uq, reg, lam, bw)
                    result(s, I, u, lab + ml, call(), ref, A + ml, alts=[("stein-thinning-unconverted-kernel", alt)] if eff is not k else [])
    o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=sk, kde_bw_method=bw))
    ref = s.spec(I, "solvers.stein", sk, sk, u.X, u.W, u.zm, u.zm, u.m, TRUE, TRUE, NONE, bw)
    result(s, I, u, "SteinThinning, supervised", s.call(I, o, "reduce", u.sup), ref, A + ".reduce", u.sup)


def cholesky(s):
    I = s.interp()
    u = Setup(s, I)
    A = SV + "RPCholesky"
    G = s.array("G", u.n)
    st = I.call(s.cls(I, SV + "coresubset.RPCholeskyState"), [G], {})
    for uq in (TRUE, FALSE):
        o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=u.k, unique=uq, random_key=u.key))
        for dl, ds, state, diag in (("", u.data, NONE, s.spec(I, "solvers.diagonal", u.k, u.X)), (", supervised", u.sup, NONE, s.spec(I, "solvers.diagonal", u.k, u.X)), (", given state", u.data, st, G)):
            ref = s.spec(I, "solvers.cholesky", u.k, u.X, u.m, uq, diag, u.key)
            r = s.call(I, o, "reduce", ds, state)
            result(s, I, u, f"RPCholesky.reduce (unique={nd.show(uq)}{dl})", r, ref.args[0], A + ".reduce", ds)


def greedy_points(s):
    I = s.interp()
    u = Setup(s, I)
    A = SV + "GreedyKernelPoints"
    lss = s.opaque(I, "lss", "coreax.least_squares.RegularisedLeastSquaresSolver")
    reg = s.scalar("lam")
    cb, lb, e = s.dim("cb"), s.dim("lb"), s.dim("e")
    FACTS_LE.extend([(nd.ONE, cb), (nd.ONE, lb), (nd.ONE, e), (nd.add(cb, nd.ONE), u.n), (nd.add(lb, nd.ONE), u.n)])
    gram = s.spec(I, "solvers.gkp_gram", u.k, u.X)
    GG = s.array("GG", nd.add(u.n, nd.ONE), nd.add(u.n, nd.ONE))
    st = I.call(s.cls(I, SV + "coresubset.GreedyKernelPointsState"), [GG], {})
    Y1 = s.array("Y1", u.n, 1)
    ds = I.call(s.cls(I, "coreax.data.SupervisedData"), [u.X, Y1, u.W], {})
    mo = s.spec(I, "solvers.minus_ones", u.m)

    def sub(label, idx, k):
        return label, idx, I.call(u.CO, [I.call(u.D, [idx], {}), ds], {})
    same = set_shape(sym("IDXm", "int"), (u.m,))
    longer = set_shape(sym("IDXme", "int"), (nd.add(u.m, e),))
    for uq in (TRUE, FALSE):
        for cl, c in (("all candidates", NONE), ("batched candidates", cb)):
            for ll, l in (("all losses", NONE), ("batched losses", lb)):
                o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, random_key=u.key, feature_kernel=u.k, regularisation_parameter=reg, unique=uq,
                                                 candidate_batch_size=c, loss_batch_size=l, least_squares_solver=lss))
                lab = f"GreedyKernelPoints (unique={nd.show(uq)}, {cl}, {ll})"
                ref = s.spec(I, "solvers.gkp", lss, gram, Y1, u.n, mo, u.m, reg, uq, c, l, u.key)
                r = s.call(I, o, "reduce", ds)
                result(s, I, u, lab + ".reduce", r, ref, A + ".reduce", ds)
                s.equal(lab + ".reduce state", fld(I, item(I, r, 1), "feature_gramian"), gram, A + ".reduce")
                _, idx, cs = sub("", same, None)
                ref = s.spec(I, "solvers.gkp", lss, GG, Y1, u.n, idx, u.m, reg, uq, c, l, u.key)
                r = s.call(I, o, "refine", cs, st)
                result(s, I, u, lab + ".refine, given state", r, ref, A + ".refine", ds)
                s.equal(lab + ".refine state is handed on", fld(I, item(I, r, 1), "feature_gramian"), GG, A + ".refine")
    o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, random_key=u.key, feature_kernel=u.k, regularisation_parameter=reg, least_squares_solver=lss))
    _, idx, cs = sub("", longer, None)
    ref = s.spec(I, "solvers.gkp", lss, gram, Y1, u.n, s.spec(I, "solvers.clipped", idx, u.m), u.m, reg, TRUE, NONE, NONE, u.key)
    result(s, I, u, "GreedyKernelPoints.refine, larger coresubset", s.call(I, o, "refine", cs), ref, A + ".refine", ds)
    o2 = I.call(s.cls(I, A), [], dict(coreset_size=nd.add(u.q, e), random_key=u.key, feature_kernel=u.k, regularisation_parameter=reg, least_squares_solver=lss))
    _, idx, cs = sub("", u.IDX, None)
    ref = s.spec(I, "solvers.gkp", lss, gram, Y1, u.n, s.spec(I, "solvers.extended", idx, e), nd.add(u.q, e), reg, TRUE, NONE, NONE, u.key)
    result(s, I, u, "GreedyKernelPoints.refine, smaller coresubset", s.call(I, o2, "refine", cs), ref, A + ".refine", ds, weights=False)
    # the default least-squares solver
    o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, random_key=u.key, feature_kernel=u.k, regularisation_parameter=reg))
    mens = I.call(s.cls(I, "coreax.least_squares.MinimalEuclideanNormSolver"), [], {})
    ref = s.spec(I, "solvers.gkp", mens, gram, Y1, u.n, mo, u.m, reg, TRUE, NONE, NONE, u.key)
    result(s, I, u, "GreedyKernelPoints.reduce, default solver", s.call(I, o, "reduce", ds), ref, A + ".reduce", ds)
    # oversized batches mean all points
    big = nd.add(u.n, e)
    o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, random_key=u.key, feature_kernel=u.k, regularisation_parameter=reg, least_squares_solver=lss,
                                     candidate_batch_size=big, loss_batch_size=big))
    ref = s.spec(I, "solvers.gkp", lss, gram, Y1, u.n, mo, u.m, reg, TRUE, NONE, NONE, u.key)
    result(s, I, u, "GreedyKernelPoints.reduce, oversized batches", s.call(I, o, "reduce", ds), ref, A + ".reduce", ds)


def thinning_half(s):
    I = s.interp()
    u = Setup(s, I)
    A = SV + "KernelThinning"
    h = s.dim("h")
    FACTS_LE.append((nd.ONE, h))
    X2 = s.array("X2", nd.mul(C(2), h), u.d)
    delta = s.scalar("delta")
    k2 = kern(s, I, "k2")
    o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=u.k, random_key=u.key, delta=delta, sqrt_kernel=k2))
    ds = I.call(u.D, [X2], {})
    r = s.call(I, o, "kt_half", ds)
    ref = s.spec(I, "solvers.halve", k2, X2, h, delta, u.key)
    for i in (0, 1):
        s.equal(f"KernelThinning.kt_half: half {i}", fld(I, item(I, r, i), "unweighted_indices"), ref.args[i], A + ".kt_half")
        s.equal(f"KernelThinning.kt_half: data of half {i}", fld(I, item(I, r, i), "pre_coreset_data"), ds, A + ".kt_half")


def halving_contract(I, u):
    """Take one halving (decided by thinning_half) as a function of the data it is given."""
    def pair(X, k, delta, key):
        return [nd.raw("halfidx", C(i), X, k, delta, key) for i in (0, 1)]

    def kt_half(I, args, kw):
        me, ds = args[0], args[1] if len(args) > 1 else kw["dataset"]
        g = lambda f: I.getattr(me, f)
        return tup(*[I.call(I.getattr(u.CO, "build"), [i, ds], {})
                        for i in pair(I.getattr(ds, "data"), g("sqrt_kernel"), g("delta"), g("random_key"))])

    I.hooks["coreax.solvers.coresubset.KernelThinning.kt_half"] = kt_half
    I.hooks["spec_one_halving"] = lambda I, a, kw: tup(*pair(a[1], a[0], a[3], a[4]))


def thinning_contract(I, u):
    """Take kernel thinning (decided by 'thinning') as a function of its data and settings."""
    def idx(X, W, m, k, k2, delta, key):
        return nd.raw("thinidx", m, X, W, k, k2, delta, key)

    def reduce(I, args, kw):
        me, ds = args[0], args[1] if len(args) > 1 else kw["dataset"]
        g = lambda f: I.getattr(me, f)
        i = idx(I.getattr(ds, "data"), I.getattr(ds, "weights"), g("coreset_size"), g("kernel"), g("sqrt_kernel"), g("delta"), g("random_key"))
        return tup(I.call(I.getattr(u.CO, "build"), [i, ds], {}), NONE)

    I.hooks["coreax.solvers.coresubset.KernelThinning.reduce"] = reduce
    I.hooks["spec_thinning"] = lambda I, a, kw: idx(a[2], a[3], a[4], a[0], a[1], a[5], a[6])


def thinning(s):
    """Kernel thinning of n = c * m points, for every m."""
    A = SV + "KernelThinning"
    cases = ((1, 0), (2, 1), (3, 1), (4, 2)) + (((5, 2), (7, 2)) if s.tier == "thorough" else ())
    for c, depth in cases:
        I = s.interp()
        u = Setup(s, I)
        halving_contract(I, u)
        delta, k2 = s.scalar("delta"), kern(s, I, "k2")
        n = nd.mul(C(c), u.m)
        X, W = s.array(f"X{c}m", n, u.d), s.array(f"W{c}m", n)
        ds = I.call(u.D, [X, W], {})
        o = I.call(s.cls(I, A), [], dict(coreset_size=u.m, kernel=u.k, random_key=u.key, delta=delta, sqrt_kernel=k2))
        r = s.call(I, o, "reduce", ds)
        e = next((e for e in I.events if e["kind"] == "logfloor"), None)
        s.holds(f"KernelThinning.reduce ({c} m points): the number of halvings is not rounded from a difference of floating-point logarithms",
                e is None, "floor of a difference of logarithms is one too small for some sizes (n=28, m=7), and half of the data is then ignored",
                where=f"coreax/solvers/coresubset.py:{e['loc'][1]} ({e['loc'][2]})" if e else "")
        ref = s.spec(I, "solvers.thinning", u.k, k2, X, W, u.m, C(depth), delta, u.key, s.call(I, u.k, "gramian_row_mean", ds))
        result(s, I, u, f"KernelThinning.reduce ({c} m points)", r, ref, A + ".reduce", ds, x=X)


def compress(s):
    """Compress++ of n points for several n and oversampling factors."""
    A = SV + "CompressPlusPlus"
    for n, g, m in ((20, 1, 4), (16, 2, 8), (20, 0, 2)) + (((70, 1, 8), (64, 2, 8)) if s.tier == "thorough" else ()):
        I = s.interp()
        u = Setup(s, I)
        delta, k2 = s.scalar("delta"), kern(s, I, "k2")
        thinning_contract(I, u)
        X, W = s.array(f"X{n}", C(n), u.d), s.array(f"W{n}", C(n))
        ds = I.call(u.D, [X, W], {})
        o = I.call(s.cls(I, A), [], dict(coreset_size=C(m), g=C(g), kernel=u.k, random_key=u.key, delta=delta, sqrt_kernel=k2))
        r = s.call(I, o, "reduce", ds)
        ref = s.spec(I, "solvers.compress", u.k, k2, X, W, C(m), C(g), delta, u.key)
        c = item(I, r, 0)
        lab = f"CompressPlusPlus.reduce (n={n}, g={g}, m={m})"
        s.equal(lab + ": indices", fld(I, c, "unweighted_indices"), ref, A + ".reduce")
        s.equal(lab + ": weights", fld(I, c, "points", "weights"), s.spec(I, "solvers.ones", C(m)), A + ".reduce")
        s.equal(lab + ": refers to the caller's data", fld(I, c, "pre_coreset_data"), ds, A + ".reduce")
