"""Index-notation normal form of array terms.

An array term T of rank r is normalised to a closed ``Lam`` (extents, body) where body
is a polynomial (sum of products of atoms, with explicit summation binders) giving the
element T[e0, .., e_{r-1}].  Atoms are interned by a fingerprint of their arguments in
GF(p) (hash value numbering), so rational-function identities inside atoms are also
recognised.  Boolean guards become idempotent indicator atoms.
"""
import hashlib
from math import isqrt, factorial as _fact
import itertools
from fractions import Fraction

from . import nodes as nd
from .nodes import N, raw, shape, ONE as N_ONE, ZERO as N_ZERO, NONE as N_NONE, TRUE, FALSE, BOT, C, INF, NAN
from . import ops

Q = 2 ** 100 + 955
PR = 2 * Q + 1
F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


def H(*key):
    """Deterministic pseudo-random quadratic residue."""
    d = hashlib.sha256(repr(key).encode()).digest()
    x = int.from_bytes(d[:20], "big") % PR
    return x * x % PR or 4


def fpow(r, e):
    """r**e for a quadratic residue r and rational e."""
    k = e.numerator % Q * pow(e.denominator, -1, Q) % Q
    return pow(r, k, PR)


class Atom:
    __slots__ = ("head", "args", "res", "names", "h", "ind", "id", "val", "key")
    _tab = {}
    _n = [0]

    def __repr__(self):
        return show_atom(self)


def akey(a):
    if isinstance(a, Poly):
        return ("p", a.fp)
    if isinstance(a, Lam):
        return ("l", a.fp)
    if isinstance(a, tuple):
        return tuple(akey(x) for x in a)
    return a


def anames(a):
    if isinstance(a, (Poly, Lam)):
        return a.names
    if isinstance(a, tuple):
        s = frozenset()
        for x in a:
            s |= anames(x)
        return s
    return frozenset()


def aheight(a):
    if isinstance(a, (Poly, Lam)):
        return a.h
    if isinstance(a, tuple):
        return max([aheight(x) for x in a], default=0)
    return 0


def atom(head, *args, ind=False):
    key = (head,) + tuple(akey(a) for a in args)
    t = Atom._tab.get(key)
    if t is not None:
        return t
    t = Atom()
    t.head, t.args, t.ind, t.key = head, args, ind, key
    t.val = None
    if head == "sin" or head == "cos":
        u = H("trig", key[1:])
        inv = pow(1 + u * u, -1, PR)
        t.res = (2 * u * inv if head == "sin" else (1 - u * u) * inv) % PR
    elif head == "P":
        t.res = args[0].fp
    else:
        t.res = H(*key)
    if head == "ix":
        t.names = frozenset([args[0]])
        t.h = 0
    else:
        t.names = anames(args)
        t.h = aheight(args)
    Atom._n[0] += 1
    t.id = Atom._n[0]
    Atom._tab[key] = t
    return t


class Mono:
    """Product of atoms under summation binders (interned)."""
    __slots__ = ("f", "b", "fp", "names", "h", "id")
    _tab = {}
    _n = [0]

    @staticmethod
    def make(factors, binders):
        f = tuple(sorted(((a, e) for a, e in factors.items() if e != 0), key=lambda ae: ae[0].id))
        key = (tuple((a.id, e) for a, e in f), tuple((v, x.fp) for v, x in binders))
        m = Mono._tab.get(key)
        if m is not None:
            return m
        m = Mono()
        m.f, m.b = f, tuple(binders)
        names = frozenset()
        h = 0
        for a, _ in f:
            names |= a.names
            h = max(h, a.h)
        for v, x in binders:
            names |= x.names
            h = max(h, x.h)
        m.names = names - frozenset(v for v, _ in binders)
        m.h = h + (1 if binders else 0)
        if binders:
            bv = frozenset(v for v, _ in binders)
            r = H("sum", tuple(sorted((a.res, str(e)) for a, e in f if a.names & bv)), tuple((v, x.fp) for v, x in binders))
            for a, e in f:
                if not (a.names & bv):
                    r = r * _apow(a, e) % PR
            m.fp = r
        else:
            r = 1
            for a, e in f:
                r = r * _apow(a, e) % PR
            m.fp = r
        Mono._n[0] += 1
        m.id = Mono._n[0]
        Mono._tab[key] = m
        return m


def _apow(a, e):
    if a.head in ("P", "sin", "cos"):
        k = e.numerator // e.denominator
        fr = e - k
        r = pow(a.res, k, PR) if a.res else (0 if k > 0 else 1)
        if fr:
            r = r * fpow(H("rt", a.key), fr) % PR
        return r
    if e.denominator == 1:
        return pow(a.res, int(e), PR)
    return fpow(a.res, e)


UNIT = Mono.make({}, ())


class Poly:
    __slots__ = ("t", "_fp", "_n", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._fp = self._n = self._h = None
        if len(self.t) > 4000:
            raise TooBig()

    @property
    def fp(self):
        if self._fp is None:
            r = 0
            for m, c in self.t.items():
                r = (r + c.numerator % PR * pow(c.denominator, -1, PR) % PR * m.fp) % PR
            self._fp = r
        return self._fp

    @property
    def names(self):
        if self._n is None:
            s = frozenset()
            for m in self.t:
                s |= m.names
            self._n = s
        return self._n

    @property
    def h(self):
        if self._h is None:
            self._h = max([m.h for m in self.t], default=0)
        return self._h

    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and UNIT in self.t:
            return self.t[UNIT]
        return None

    def __repr__(self):
        return show_poly(self)


ZERO = Poly({})
ONE = Poly({UNIT: F1})


def pc(c):
    return Poly({UNIT: Fraction(c)})


def pa(a, e=F1):
    return Poly({Mono.make({a: Fraction(e)}, ()): F1})


def padd(*ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            t[m] = t.get(m, F0) + c
    return Poly(t)


def pscale(p, c):
    c = Fraction(c)
    return Poly({m: v * c for m, v in p.t.items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return ("t", _fresh[0])


def ix(name):
    return pa(atom("ix", name))


def pmul(*ps):
    r = ONE
    for p in ps:
        r = _pmul2(r, p)
    return r


def _pmul2(p, q):
    cp, cq = p.const(), q.const()
    if cp is not None:
        return pscale(q, cp)
    if cq is not None:
        return pscale(p, cq)
    out = []
    if len(p.t) * len(q.t) > 6000:
        raise TooBig()
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            out.append(pscale(mmul(m1, m2), c1 * c2))
    return padd(*out)


def open_mono(m):
    """-> (factors dict, binders list, coefficient) with fresh binder names."""
    if not m.b:
        return dict(m.f), [], F1
    coef = F1
    ren = {v: ix(fresh()) for v, _ in m.b}
    fac = {}
    for a, e in m.f:
        if a.names & ren.keys():
            r = rename_atom(a, ren)
            if isinstance(r, Atom):
                fac[r] = fac.get(r, F0) + e
            else:
                coef *= _absorb(fac, r, e)
        else:
            fac[a] = fac.get(a, F0) + e
    b = [(next(iter(next(iter(ren[v].t)).f))[0].args[0], rename(x, ren)) for v, x in m.b]
    return fac, b, coef


def _absorb(fac, p, e):
    """Multiply fac by the single-monomial polynomial p**e; -> coefficient."""
    if len(p.t) != 1:
        raise TooBig("index renaming produced a sum")
    (m, c), = p.t.items()
    if m.b or (c != 1 and e.denominator != 1):
        raise TooBig("index renaming produced a binder")
    for a, x in m.f:
        fac[a] = fac.get(a, F0) + x * e
    return c ** int(e) if c != 1 else F1


_mm_cache = {}


def mmul(m1, m2):
    if m1 is UNIT:
        return Poly({m2: F1})
    if m2 is UNIT:
        return Poly({m1: F1})
    k = (m1.id, m2.id) if m1.id < m2.id else (m2.id, m1.id)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    f1, b1, c1 = open_mono(m1)
    f2, b2, c2 = open_mono(m2)
    for a, e in f2.items():
        f1[a] = f1.get(a, F0) + e
    r = pscale(close_mono(f1, b1 + b2), c1 * c2)
    _mm_cache[k] = r
    return r


def _solve_ix(d, names):
    """Find index name v in 'names' with d = +-v + rest, v not in rest; -> (v, value Poly)."""
    for m, c in d.t.items():
        if not m.b and len(m.f) == 1 and m.f[0][0].head == "ix" and m.f[0][1] == 1 and abs(c) == 1:
            v = m.f[0][0].args[0]
            if v in names:
                rest = Poly({k: x for k, x in d.t.items() if k is not m})
                if v not in rest.names:
                    return v, pscale(rest, -1 / c)
    return None


def close_mono(f, binders):
    """Normalise a product under binders (list of (fresh var, extent Poly)); -> Poly."""
    f = {a: e for a, e in f.items() if e != 0}
    # expansion of compound factors
    for a in list(f):
        e = f[a]
        if a.ind:
            if e > 0:
                f[a] = F1
        elif a.head == "sign" and e.denominator == 1:
            e = Fraction(int(e) % 2)
            if e == 0:
                del f[a]
            else:
                f[a] = e
        elif a.head == "P" and e >= 1:
            k = int(e)
            del f[a]
            if e - k:
                f[a] = e - k
            return _distribute(f, binders, _ipow(a.args[0], k))
        elif a.head == "cos" and e >= 2:
            f[a] = e - 2
            s = pa(atom("sin", a.args[0]))
            return _distribute(f, binders, psub(ONE, pmul(s, s)))
        elif a.head == "prime" and (e >= 1 or e < 0):
            k = e.numerator // e.denominator
            p = Fraction(a.args[0]) ** k
            if e - k:
                f[a] = e - k
            else:
                del f[a]
            return pscale(close_mono(f, binders), p)
    # equality indicators
    bn = {v for v, _ in binders}
    for a in list(f):
        if a.head == "eq":
            s = _solve_ix(a.args[0], bn)
            if s is not None:
                v, val = s
                g = {x: e for x, e in f.items() if x is not a}
                return _subst_close(g, [(w, x) for w, x in binders if w != v], {v: val})
            s = _solve_ix(a.args[0], {n for n in a.names if n not in bn})
            if s is not None and any(s[0] in x.names for x in f if x is not a):
                v, val = _solve_max(a.args[0], {n for n in a.names if n not in bn})
                if any(v in x.names for x in f if x is not a):
                    g = {x: e for x, e in f.items() if x is not a}
                    r = _subst_close(g, binders, {v: val})
                    return pmul(pa(a), r) if not binders else _distribute({a: F1}, [], r)
    # indicator contradictions: lt(d) and lt(-d)
    lts = [a for a in f if a.head == "lt"]
    if len(lts) > 1:
        ks = {a.args[0].fp for a in lts}
        for a in lts:
            if (-a.args[0].fp) % PR in ks:
                return ZERO
    if not binders:
        return Poly({Mono.make(f, ()): F1})
    used = frozenset()
    for a in f:
        used |= a.names
    for v, x in binders:
        if v not in used:
            return pmul(x, close_mono(f, [(w, y) for w, y in binders if w != v]))
    r = _bound_rules(f, binders)
    if r is not None:
        return r
    bound = frozenset(v for v, _ in binders)
    inner = {a: e for a, e in f.items() if a.names & bound}
    outer = {a: e for a, e in f.items() if not (a.names & bound)}
    cf, c = canon_sum(inner, binders)
    if not outer:
        return Poly({c: cf})
    # attach outer factors in the same monomial (they do not mention the binders)
    fac = dict(c.f)
    for a, e in outer.items():
        fac[a] = fac.get(a, F0) + e
    return Poly({Mono.make(fac, c.b): cf})


def _bound_rules(f, binders):
    """Range restriction by order indicators and fusion of blocked index pairs."""
    ext = dict(binders)
    for a in f:
        if a.head == "lt" and (a.names & ext.keys()):
            d = a.args[0]
            g = {x: e for x, e in f.items() if x is not a}
            if is_int(d):
                if pnonneg(psub(d, ONE), ext):
                    return close_mono(g, binders)
                if pnonneg(pscale(d, -1), ext):
                    return ZERO
            for v in a.names & ext.keys():
                lo = _lin_coef(d, v)
                if lo is not None and lo[0] == -1 and is_int(d):
                    lim = lo[1]
                    if not (lim.names & ext.keys()) and pnonneg(psub(ext[v], lim)) and pnonneg(lim):
                        return close_mono(g, [(w, lim if w == v else x) for w, x in binders])
                if lo is not None and lo[0] == 1 and is_int(d):
                    # [v + rest > 0] = 1 - [v < 1 - rest]
                    lim = psub(ONE, lo[1])
                    if not (lim.names & ext.keys()) and pnonneg(psub(ext[v], lim)) and pnonneg(lim):
                        return psub(close_mono(g, binders), close_mono(g, [(w, lim if w == v else x) for w, x in binders]))
    if len(binders) < 2:
        return None
    for r, b in binders:
        if b.const() is not None and b.const() == 1:
            continue
        for B, q in binders:
            if B == r or B in b.names or r in q.names:
                continue
            both = [a for a in f if r in a.names and B in a.names]
            if not both or any((B in a.names) != (r in a.names) for a in f):
                continue
            t = fresh()
            mp = {r: psub(ix(t), pmul(ix(B), b))}
            rest = [(w, x) for w, x in binders if w not in (r, B)]
            if any(r in x.names or B in x.names for _, x in rest):
                continue
            p = _subst_close(dict(f), [], mp)
            if B in p.names:
                continue
            return _distribute({}, rest + [(t, pmul(q, b))], p)
    return None


def _lin_coef(d, v):
    """d = c*v + rest with rest free of v -> (c, rest)"""
    c, rest = None, {}
    for m, k in d.t.items():
        if v in m.names:
            if c is not None or m.b or len(m.f) != 1 or m.f[0][0].head != "ix" or m.f[0][1] != 1:
                return None
            c = k
        else:
            rest[m] = k
    if c is None:
        return None
    return c, Poly(rest)


def _solve_max(d, names):
    best = None
    for m, c in d.t.items():
        if not m.b and len(m.f) == 1 and m.f[0][0].head == "ix" and m.f[0][1] == 1 and abs(c) == 1:
            v = m.f[0][0].args[0]
            if v in names and (best is None or v > best[0]):
                rest = Poly({k: x for k, x in d.t.items() if k is not m})
                if v not in rest.names:
                    best = (v, pscale(rest, -1 / c))
    return best


def _distribute(f, binders, p):
    out = []
    for m, c in p.t.items():
        f2, b2, k = open_mono(m)
        g = dict(f)
        for a, e in f2.items():
            g[a] = g.get(a, F0) + e
        out.append(pscale(close_mono(g, binders + b2), c * k))
    return padd(*out)


def _subst_close(f, binders, mp):
    r = ONE
    fac = {}
    for a, e in f.items():
        if a.names & mp.keys():
            x = rename_atom(a, mp)
            if isinstance(x, Atom):
                fac[x] = fac.get(x, F0) + e
            else:
                r = pmul(r, ppow(x, e))
        else:
            fac[a] = fac.get(a, F0) + e
    binders = [(v, rename(x, mp)) for v, x in binders]
    if r is ONE:
        return close_mono(fac, binders)
    return _distribute(fac, binders, r)


_canon_cache = {}


def canon_sum(f, binders):
    h = 0
    for a in f:
        h = max(h, a.h)
    for _, x in binders:
        h = max(h, x.h)
    h += 1
    n = len(binders)
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    best = None
    for perm in perms:
        ren = {binders[i][0]: ix(("b", h, j)) for j, i in enumerate(perm)}
        fac = {}
        coef = F1
        for a, e in f.items():
            x = rename_atom(a, ren)
            if not isinstance(x, Atom):
                coef *= _absorb(fac, x, e)
            else:
                fac[x] = fac.get(x, F0) + e
        bs = tuple((("b", h, j), rename(binders[i][1], ren)) for j, i in enumerate(perm))
        key = (tuple(x.fp for _, x in bs), tuple(sorted((a.res, e) for a, e in fac.items())))
        if best is None or key < best[0]:
            best = (key, fac, bs, coef)
    return best[3], Mono.make(best[1], best[2])


def psum(p, v, extent):
    """Sum of p over index name v (a fresh name) in [0, extent)."""
    n = extent.const()
    if n is not None and n.denominator == 1 and 0 <= n <= 6:
        return padd(*[rename(p, {v: pc(i)}) for i in range(int(n))])
    out = []
    for m, c in p.t.items():
        f, b, k = open_mono(m)
        out.append(pscale(close_mono(f, b + [(v, extent)]), c * k))
    return padd(*out)


def _ipow(p, k):
    r = ONE
    for _ in range(k):
        r = pmul(r, p)
    return r


def ppow(p, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        if e.denominator == 1 and (c != 0 or e > 0):
            return pc(c ** int(e))
        if c == 0:
            return ZERO if e > 0 else pa(atom("divzero"))
        if c > 0:
            return cpow(c, e)
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        if not m.b and (c > 0 or e.denominator == 1):
            inds = [a for a, _ in m.f if a.ind]
            even = [(a, x) for a, x in m.f if x.denominator == 1 and int(x) % 2 == 0]
            if not inds and (e.denominator == 1 or not even or all(positive(a) for a, _ in even)):
                r = close_mono({a: x * e for a, x in m.f}, [])
                return pmul(pc(c ** int(e)) if e.denominator == 1 else cpow(c, e), r)
    if e.denominator == 1 and 0 < e <= 6:
        return _ipow(p, int(e))
    return case_split(p, lambda q: _ppow_base(q, e))


POSITIVE = {"ls", "os"}        # scalar inputs of the checks that the constructors require to be positive


def positive(a):
    return a.head in ("exp", "pi", "prime", "powm") or a.ind or a.head == "el" and isinstance(a.args[0], str) and a.args[0] in POSITIVE


def cpow(c, e):
    """positive rational constant to a rational power"""
    if e.denominator == 1:
        return pc(c ** int(e))
    r = ONE
    for base, s in ((c.numerator, 1), (c.denominator, -1)):
        n, d = base, 2
        while n > 1 and d < 100000:
            k = 0
            while n % d == 0:
                n //= d
                k += 1
            if k:
                r = pmul(r, close_mono({atom("prime", d): e * k * s}, []))
            d += 1
        if n > 1:
            r = pmul(r, close_mono({atom("prime", n): e * s}, []))
    return r


def _ppow_base(q, e):
    c = q.const()
    if c is not None:
        return ppow(q, e) if c > 0 or (e.denominator == 1 and (c or e > 0)) else pa(atom("cst_pow", q, str(e)))
    if len(q.t) == 1:
        m, c = next(iter(q.t.items()))
        if not m.b and not any(a.ind for a, _ in m.f) and (c > 0 or e.denominator == 1):
            even = [(a, x) for a, x in m.f if x.denominator == 1 and int(x) % 2 == 0]
            if e.denominator == 1 or not even or all(positive(a) for a, _ in even):
                return pmul(pc(c ** int(e)) if e.denominator == 1 else cpow(c, e), close_mono({a: x * e for a, x in m.f}, []))
    if e.denominator == 2:
        r = _sqrt_poly(q)
        if r is not None:
            return ppow(pfn("abs", r), 2 * e)
    pull = _common(q)
    if pull:
        inv = Mono.make({a: -x for a, x in pull.items()}, ())
        rest = pmul(q, Poly({inv: F1}))
        if len(rest.t) == len(q.t):
            return pmul(close_mono({a: x * e for a, x in pull.items()}, []), ppow(rest, e))
    # content: scale so that the fingerprint-minimal coefficient is 1 (sign kept for roots)
    k = max(abs(c) for c in q.t.values())
    base = pscale(q, 1 / k)
    fac = pc(k ** int(e)) if e.denominator == 1 else cpow(k, e)
    return pmul(fac, close_mono({atom("P", base): e}, []))


def _common(q):
    """Positive scalar inputs that divide every term (with the exponent that leaves a polynomial in them)."""
    low = {}
    for m in q.t:
        for a, _ in m.f:
            if a.head == "el" and positive(a):
                low[a] = None
    for a in low:
        low[a] = min(next((x for b, x in m.f if b is a), F0) for m in q.t)
    return {a: x for a, x in low.items() if x != 0}


def _sqrt_poly(q):
    """r with r**2 == q for a three-term perfect square, else None."""
    if len(q.t) != 3:
        return None
    roots = []
    for m, c in q.t.items():
        if m.b or c <= 0 or any(e % 2 for _, e in m.f) or not m.f:
            continue
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            # common content may be shared by all terms
            k = None
        roots.append((m, c))
    if len(roots) != 2:
        return None
    c0 = roots[0][1]
    if roots[1][1] / c0 != 1:
        x = roots[1][1] / c0
        n, d = isqrt(x.numerator), isqrt(x.denominator)
        if n * n != x.numerator or d * d != x.denominator:
            return None
        k2 = Fraction(n, d)
    else:
        k2 = F1
    n, d = isqrt(c0.numerator), isqrt(c0.denominator)
    if n * n != c0.numerator or d * d != c0.denominator:
        return None
    k1 = Fraction(n, d)
    r1 = Poly({Mono.make({a: e / 2 for a, e in roots[0][0].f}, ()): k1})
    r2 = Poly({Mono.make({a: e / 2 for a, e in roots[1][0].f}, ()): k1 * k2})
    for sg in (1, -1):
        r = padd(r1, pscale(r2, sg))
        if pmul(r, r).fp == q.fp:
            return r
    return None


def _content(q):
    m = min(q.t, key=lambda m: m.fp)
    return q.t[m]


def case_split(p, fn, depth=5):
    cand = None
    for m in p.t:
        for a, e in m.f:
            if a.ind and not (a.names & {v for v, _ in m.b}):
                if cand is None or a.res < cand.res:
                    cand = a
    if cand is None or depth == 0:
        return fn(p)
    p1, p0 = assign_ind(p, cand, 1), assign_ind(p, cand, 0)
    ca = pa(cand)
    r1, r0 = case_split(p1, fn, depth - 1), case_split(p0, fn, depth - 1)
    if r1.fp == r0.fp:
        return r1
    return padd(pmul(ca, r1), pmul(psub(ONE, ca), r0))


def assign_ind(p, a, v):
    out = []
    for m, c in p.t.items():
        if any(x is a for x, _ in m.f):
            if v == 0:
                continue
            f = {x: e for x, e in m.f if x is not a}
            if m.b:
                out.append(Poly({Mono.make(f, m.b): c}))
            else:
                out.append(Poly({Mono.make(f, ()): c}))
        else:
            out.append(Poly({m: c}))
    return padd(*out) if out else ZERO


# ------------------------------------------------------------------ functions
def pexp(p):
    return case_split(p, _pexp)


def _pexp(p):
    f = {}
    for m, c in p.t.items():
        # exp(log(x)*k) = x**k
        if not m.b and len(m.f) == 1 and m.f[0][0].head == "fn" and m.f[0][0].args[0] == "log" and m.f[0][1] == 1:
            return pmul(ppow(m.f[0][0].args[1], c), _pexp(Poly({k: x for k, x in p.t.items() if k is not m})))
        a = atom("exp", Poly({m: F1}))
        f[a] = f.get(a, F0) + c
    return close_mono(f, [])


def ppow_sym(b, e):
    """b ** e with symbolic exponent e."""
    c = e.const()
    if c is not None:
        return ppow(b, c)
    out = ONE
    f = {}
    for m, c in e.t.items():
        if m is UNIT:
            out = pmul(out, ppow(b, c))
            continue
        a = atom("powm", b, Poly({m: F1}))
        f[a] = f.get(a, F0) + c
    return pmul(out, close_mono(f, []))


def pfn(name, p):
    if name == "exp":
        return pexp(p)
    if name in ("sin", "cos"):
        c = p.const()
        if c == 0:
            return ZERO if name == "sin" else ONE

        def trig(q):
            if not q.t:
                return ZERO if name == "sin" else ONE
            m0 = next(iter(q.t))
            for a, e in m0.f:
                # sin(s*u) = s*sin(u), cos(s*u) = cos(u) for s = sign(.)
                if a.head == "sign" and e == 1 and all(any(b is a and x == 1 for b, x in m.f) and not m.b for m in q.t):
                    u = Poly({Mono.make({b: x for b, x in m.f if b is not a}, ()): c for m, c in q.t.items()})
                    r = pfn(name, u)
                    return pmul(pa(a), r) if name == "sin" else r
            k = _content(q)
            if k < 0:
                q = pscale(q, -1)
                return pscale(pa(atom(name, q)), -1 if name == "sin" else 1)
            return pa(atom(name, q))
        return case_split(p, trig)
    if name == "abs":
        return case_split(p, lambda q: pmul(q, pfn("sign", q)) if q.const() is None else pc(abs(q.const())))
    if name == "sign":
        def sg(q):
            c = q.const()
            if c is not None:
                return pc((c > 0) - (c < 0))
            k = _content(q)
            return pscale(pa(atom("sign", pscale(q, 1 / k))), 1 if k > 0 else -1)
        return case_split(p, sg)
    if name in ("isnan", "isinf", "isfinite"):
        return pa(atom(name, p, ind=True))
    if name == "log":
        return case_split(p, lambda q: ZERO if q.const() == 1 else pa(atom("fn", "log", q)))
    if name == "factorial":
        c = p.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 30:
            return pc(_fact(int(c)))
    if name == "pos" or name == "real":
        return p
    if name in ("floor_", "floor"):
        return pfloor(p)
    if name in ("ceil_", "ceil"):
        return pscale(pfloor(pscale(p, -1)), -1)
    if name in ("round_", "trunc", "int") and is_int(p):
        return p
    return case_split(p, lambda q: pa(atom("fn", name, q)))


# ------------------------------------------------------------------ integer facts
INT_NAMES = set()        # scalar symbols known to be integers
DIM_LO = {}              # scalar symbol name -> lower bound (dimensions)
LE_PAIRS = []            # (name a, name b): a <= b
IV_HI = {}               # loop name -> number of iterations


def is_int_atom(a):
    if a.ind or a.head in ("ix", "iv", "floor", "len"):
        return True
    return a.head == "el" and a.args[1] == () and isinstance(a.args[0], str) and a.args[0] in INT_NAMES


def is_int(p):
    return all(c.denominator == 1 and not m.b and all(e.denominator == 1 and e > 0 and is_int_atom(a) for a, e in m.f) for m, c in p.t.items())


def atom_lo(a):
    """Lower bound of an atom or None."""
    if a.ind or a.head in ("ix", "iv", "len"):
        return 0
    if a.head == "el" and a.args[1] == () and isinstance(a.args[0], str):
        return DIM_LO.get(a.args[0])
    return None


def pnonneg(p, bounds=None, depth=6):
    """p >= 0 for all admissible values; bounds: index name -> extent."""
    c = p.const()
    if c is not None:
        return c >= 0
    if depth == 0:
        return False
    bounds = bounds or {}
    low = F0
    ok = True
    for m, c in p.t.items():
        if m.b:
            ok = False
            break
        if m is UNIT:
            low += c
            continue
        if c > 0:
            l = c
            for a, e in m.f:
                x = atom_lo(a)
                if x is None or e < 0 or (e.denominator != 1):
                    if e < 0 and atom_lo(a) is not None:
                        l *= 0
                        continue
                    l = None
                    break
                l *= Fraction(x) ** int(e)
            if l is None:
                ok = False
                break
            low += l
        else:
            ok = False
            break
    if ok:
        return low >= 0
    for m, c in p.t.items():
        if m.b:
            return False
        if c < 0:
            for a, e in m.f:
                if e != 1:
                    continue
                others = {b: x for b, x in m.f if b is not a}
                if not all(atom_lo(b) is not None for b in others):
                    continue
                up = None
                if a.head == "floor":
                    up = a.args[0]
                elif a.head == "ix" and a.args[0] in bounds:
                    up = psub(bounds[a.args[0]], ONE)
                elif a.head == "iv" and a.args[0] in IV_HI:
                    up = psub(IV_HI[a.args[0]], ONE)
                elif a.ind:
                    up = ONE
                if up is not None:
                    q = padd(Poly({k: x for k, x in p.t.items() if k is not m}), pscale(pmul(close_mono(others, []), up), c))
                    if pnonneg(q, bounds, depth - 1):
                        return True
                if a.head == "el" and a.args[1] == ():
                    for x, y in LE_PAIRS:
                        if x == a.args[0]:
                            up = pa(atom("el", y, ()))
                            q = padd(Poly({k: v for k, v in p.t.items() if k is not m}), pscale(pmul(close_mono(others, []), up), c))
                            if pnonneg(q, bounds, depth - 1):
                                return True
        else:
            for a, e in m.f:
                if a.head == "floor" and e == 1:
                    # integer division of nonnegative quantities
                    if pnonneg(a.args[0], bounds, depth - 2):
                        q = Poly({k: v for k, v in p.t.items() if k is not m})
                        if all(atom_lo(b) is not None for b, _ in m.f if b is not a) and pnonneg(q, bounds, depth - 1):
                            return True
    return False


def pfloor(p):
    """floor of a polynomial: integer part moved out."""
    def go(q):
        c = q.const()
        if c is not None:
            return pc(c.numerator // c.denominator)
        out, rest = {}, {}
        for m, c in q.t.items():
            if not m.b and all(e.denominator == 1 and e > 0 and is_int_atom(a) for a, e in m.f):
                k = c.numerator // c.denominator
                if k:
                    out[m] = Fraction(k)
                if c - k:
                    rest[m] = c - k
            else:
                rest[m] = c
        if not rest:
            return Poly(out)
        return padd(Poly(out), pa(atom("floor", Poly(rest))))
    return case_split(p, go)


def pfloordiv(a, b):
    return pfloor(pmul(a, ppow(b, -1)))


def pmod(a, b):
    return psub(a, pmul(b, pfloordiv(a, b)))


def simp_inds(p, bounds):
    """Decide the order indicators of p that follow from the ranges of its indices."""
    for _ in range(8):
        hit = None
        for m in p.t:
            bn = {v for v, _ in m.b}
            for a, e in m.f:
                if a.head == "lt" and (a.names & bounds.keys()) and not (a.names & bn) and not any(x in bn for x in a.names):
                    if pnonneg(psub(a.args[0], ONE) if is_int(a.args[0]) else pscale(a.args[0], -1), bounds):
                        hit = (a, 1 if is_int(a.args[0]) else 0)
                    elif pnonneg(pscale(a.args[0], -1), bounds):
                        hit = (a, 0)
                    if hit:
                        break
            if hit:
                break
        if not hit:
            return p
        p = assign_ind(p, *hit)
    return p


def _shape_key(m):
    """Description of a monomial that does not depend on index names."""
    return repr(sorted((a.head, a.args[0] if a.head == "el" and isinstance(a.args[0], str) else "", str(e)) for a, e in m.f))


def ind_lt(a, b):
    """indicator a < b"""
    d = psub(b, a)

    def go(q):
        c = q.const()
        if c is not None:
            return ONE if c > 0 else ZERO
        if is_int(q):
            if pnonneg(psub(q, ONE)):
                return ONE
            if pnonneg(pscale(q, -1)):
                return ZERO
            # integers: q > 0; canonical sign
            ks = {}
            for m, c in q.t.items():
                if m is not UNIT:
                    ks.setdefault(_shape_key(m), []).append(c)
            k0 = ks[min(ks)]
            if all(c < 0 for c in k0):
                return psub(ONE, pa(atom("lt", psub(ONE, q), ind=True)))
            return pa(atom("lt", q, ind=True))
        k = abs(_content(q))
        return pa(atom("lt", pscale(q, 1 / k), ind=True))
    return case_split(d, go)


def ind_eq(a, b):
    d = psub(a, b)

    def go(q):
        c = q.const()
        if c is not None:
            return ONE if c == 0 else ZERO
        k = _content(q)
        return pa(atom("eq", pscale(q, 1 / k), ind=True))
    return case_split(d, go)


def opaque(head, *args, ind=False):
    return pa(atom(head, *args, ind=ind))


def pmaxmin(kind, a, b):
    if a.fp == b.fp:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return pc(max(ca, cb) if kind == "maximum" else min(ca, cb))
    d = psub(a, b)
    if pnonneg(d):
        return a if kind == "maximum" else b
    if pnonneg(pscale(d, -1)):
        return b if kind == "maximum" else a
    x, y = sorted((a, b), key=lambda q: q.fp)
    return pa(atom(kind, x, y))


# ------------------------------------------------------------------ renaming
def rename(p, mp):
    if not (p.names & mp.keys()):
        return p
    out = []
    for m, c in p.t.items():
        if not (m.names & mp.keys()):
            out.append(Poly({m: c}))
            continue
        f, b, k = open_mono(m)
        out.append(pscale(_subst_close(f, b, mp), c * k))
    return padd(*out)


def rename_lam(l, mp):
    if not (l.names & mp.keys()):
        return l
    vs = [fresh() for _ in l.vars]
    op = {v: ix(w) for v, w in zip(l.vars, vs)}
    body = rename(rename(l.body, op), mp)
    return lam(vs, [rename(x, mp) for x in l.ext], body)


def rename_any(a, mp):
    if isinstance(a, Poly):
        return rename(a, mp)
    if isinstance(a, Lam):
        return rename_lam(a, mp)
    if isinstance(a, tuple):
        return tuple(rename_any(x, mp) for x in a)
    return a


_ra_cache = {}


def rename_atom(a, mp):
    """-> Atom, or Poly when the substitution simplifies."""
    if a.head == "ix":
        p = mp.get(a.args[0])
        if p is None:
            return a
        return _as_atom(p)
    if not (a.names & mp.keys()):
        return a
    ck = (a.id, tuple(sorted((str(k), v.fp) for k, v in mp.items() if k in a.names)))
    r = _ra_cache.get(ck)
    if r is None:
        args = [rename_any(x, mp) for x in a.args]
        r = _as_atom(rebuild(a.head, args, a.ind))
        _ra_cache[ck] = r
    return r


def _as_atom(p):
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        if c == 1 and not m.b and len(m.f) == 1 and m.f[0][1] == 1:
            return m.f[0][0]
    return p


def rebuild(head, args, ind):
    if head == "lt":
        return ind_lt(ZERO, args[0])
    if head == "eq":
        return ind_eq(args[0], ZERO)
    if head == "exp":
        return pexp(args[0])
    if head in ("sin", "cos", "sign"):
        return pfn(head, args[0])
    if head == "fn":
        return pfn(args[0], args[1])
    if head == "floor":
        return pfloor(args[0])
    if head == "powm":
        return ppow_sym(args[0], args[1])
    if head in ("maximum", "minimum"):
        return pmaxmin(head, *args)
    if head == "P":
        return pa(atom("P", args[0]))
    if head == "listed":
        return listed(args[0], args[1])
    return pa(atom(head, *args, ind=ind))


class Lam:
    __slots__ = ("ext", "vars", "body", "fp", "names", "h")


def lam(vs, ext, body):
    """Close body over index names vs."""
    l = Lam()
    if LISTING[0]:
        for v, x in zip(vs, ext):
            k = x.const()
            if k is None or not 1 <= k <= 64 or v not in body.names:
                continue
            LISTING[0] -= int(k)
            if LISTING[0] <= 0:
                raise TooBig("too many entries to list")
            body = listed(ix(v), tuple(rename(body, {v: pc(i)}) for i in range(int(k))))
    h = 1 + max([body.h] + [x.h for x in ext], default=0)
    nv = tuple(("l", h, j) for j in range(len(vs)))
    l.vars = nv
    l.ext = tuple(ext)
    if vs:
        body = simp_inds(body, dict(zip(vs, ext)))
    l.body = rename(body, {v: ix(w) for v, w in zip(vs, nv)}) if vs else body
    l.h = h
    s = l.body.names - frozenset(nv)
    for x in ext:
        s |= x.names
    l.names = s
    l.fp = H("lam", tuple(x.fp for x in ext), l.body.fp)
    return l


LISTING = [0]       # remaining budget while arrays of literal size are represented entry by entry


def listed(i, entries):
    k = i.const()
    if k is not None and 0 <= k < len(entries) and k == int(k):
        return entries[int(k)]
    if all(isinstance(e, Poly) for e in entries):
        if all(e.fp == entries[0].fp for e in entries):
            return entries[0]
        if all(e.const() == k for k, e in enumerate(entries)):
            return i
        hs = [_as_atom(e) for e in entries]
        a0 = hs[0]
        if isinstance(a0, Atom) and a0.head != "ix" and all(isinstance(a, Atom) and a.head == a0.head and len(a.args) == len(a0.args) for a in hs) \
                and (a0.head != "listed" or all(akey(a.args[1]) == akey(a0.args[1]) for a in hs)):
            args = [_listed_arg(i, [a.args[j] for a in hs]) for j in range(len(a0.args))]
            if None not in args:
                return rebuild(a0.head, args, a0.ind)
    return pa(atom("listed", i, tuple(entries)))


def _listed_arg(i, xs):
    """The common form of xs with the differing components looked up in a list, or None."""
    if all(akey(x) == akey(xs[0]) for x in xs):
        return xs[0]
    if all(isinstance(x, Poly) for x in xs):
        return listed(i, tuple(xs))
    if all(isinstance(x, tuple) and len(x) == len(xs[0]) for x in xs):
        r = [_listed_arg(i, [x[j] for x in xs]) for j in range(len(xs[0]))]
        return None if None in r else tuple(r)
    return None


def entrywise(budget):
    """Switch to (or, with 0, out of) the entry-by-entry representation of arrays of literal size."""
    LISTING[0] = budget
    for c in (_mm_cache, _canon_cache, _ra_cache):
        c.clear()


def lam_apply(l, idx):
    """Instantiate a Lam at index Polys."""
    vs = [fresh() for _ in l.vars]
    b = rename(l.body, {v: ix(w) for v, w in zip(l.vars, vs)})
    return rename(b, {w: i for w, i in zip(vs, idx)})


# ------------------------------------------------------------------ printing
def show_atom(a, d=3):
    if a.head == "ix":
        return "%s%s" % (a.args[0][0], "_".join(str(x) for x in a.args[0][1:]))
    if d <= 0:
        return a.head + "(..)"
    return a.head + "(" + ", ".join(show_any(x, d - 1) for x in a.args) + ")"


def show_any(x, d=3):
    if isinstance(x, Poly):
        return show_poly(x, d)
    if isinstance(x, Lam):
        return "λ%d.%s" % (len(x.vars), show_poly(x.body, d))
    if isinstance(x, tuple):
        return "(" + ",".join(show_any(y, d) for y in x) + ")"
    return str(x)


def show_poly(p, d=3):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:12]:
        s = "·".join(show_atom(a, d) + ("" if e == 1 else f"^{e}") for a, e in m.f)
        if m.b:
            s = "Σ{" + ",".join("%s%d_%d" % v for v, _ in m.b) + "} " + s
        out.append((f"{c}·" if c != 1 or not s else "") + (s or "1").lstrip("·") if s else str(c))
    return "[" + " + ".join(out) + (" + …" if len(p.t) > 12 else "") + "]"
