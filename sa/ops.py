"""Smart constructors for array terms (indexing, stacking, reductions, scatter...)."""
from fractions import Fraction
from .nodes import *
from . import nodes as nd

FULL = raw("slice", NONE, NONE, NONE)
ELLIPSIS = raw("ellipsis")


def tup(*xs):
    return raw("tuple", *xs)


def lst(*xs):
    return raw("list", *xs)


def obj(cls, fields):
    return raw("obj", cls, tuple(fields))


def obj_fields(n):
    return dict(n.args[1])


def rank(n):
    s = shape(n)
    return None if s is None else len(s)


def is_scalar(n):
    return n.op in ("num", "iv", "vi") or rank(n) == 0


# ------------------------------------------------------------------ indexing
def index(x, keys):
    if not isinstance(keys, tuple):
        keys = (keys,)
    if x is BOT:
        return BOT
    keys = list(keys)
    r = rank(x)
    if ELLIPSIS in keys:
        p = keys.index(ELLIPSIS)
        consumed = sum(1 for k in keys if k is not ELLIPSIS and k is not NONE)
        if r is not None:
            keys[p:p + 1] = [FULL] * max(0, r - consumed)
        elif p == len(keys) - 1:
            keys.pop()
    while keys and keys[-1] is FULL:
        keys.pop()
    if not keys:
        return x
    if x.op == "phi" and any(b.op in ("tuple", "list", "obj") for b in x.args[1:]):
        return phi(x.args[0], index(x.args[1], tuple(keys)), index(x.args[2], tuple(keys)))
    if x.op in ("tuple", "list") and len(keys) == 1:
        k = keys[0]
        if k.op == "num":
            i = int(k.args[0])
            if -len(x.args) <= i < len(x.args):
                return x.args[i]
            return BOT
        if k.op == "slice" and all(a is NONE or a.op == "num" for a in k.args):
            sl = slice(*[None if a is NONE else int(a.args[0]) for a in k.args])
            return raw(x.op, *x.args[sl])
    if x.op == "stack" and x.args[3] is ZERO and is_scalar(keys[0]) and keys[0] is not NONE:
        k = keys[0]
        if not (k.op == "num" and k.args[0] < 0):
            e = subst(x.args[0], {x.args[1]: k})
            return index(e, tuple(keys[1:])) if len(keys) > 1 else e
    if x.op == "stack" and x.args[3].op == "num" and x.args[3].args[0] > 0:
        ax = int(x.args[3].args[0])
        if len(keys) > ax and all(is_scalar(k) and k is not NONE and not (k.op == "num" and k.args[0] < 0) for k in keys[:ax + 1]):
            e = subst(x.args[0], {x.args[1]: keys[ax]})
            return index(e, tuple(keys[:ax] + keys[ax + 1:]))
        # element along leading axes only: push inside
        if len(keys) <= ax and all(is_scalar(k) and k is not NONE for k in keys):
            return stack(index(x.args[0], tuple(keys)), x.args[1], x.args[2], C(ax - len(keys)))
    if x.op == "index" and all(k is not NONE and k.op != "slice" and is_scalar(k) for k in x.args[1]):
        return index(x.args[0], x.args[1] + tuple(keys))
    if x.op == "arange" and len(keys) == 1 and keys[0].op in ("iv", "vi"):
        return keys[0]
    if x.op == "expand_dims" and x.args[1] is ONE and len(keys) == 1:
        k = keys[0]
        if k.op == "slice" or rank(k) == 1:
            return expand_dims(index(x.args[0], (k,)), ONE)
        if rank(k) == 0 and k is not NONE:
            return expand_dims(index(x.args[0], (k,)), ZERO)
    if len(keys) >= 2 and x.op == "expand_dims" and keys[0] is FULL and keys[1] is ZERO and x.args[1] is ONE:
        return index(x.args[0], tuple(keys[2:]))
    if NONE in keys and all(k is NONE or k is FULL for k in keys):
        # pure newaxis -> expand_dims chain
        y = x
        for p, k in enumerate(keys):
            if k is NONE:
                y = expand_dims(y, C(p))
        return y
    if x.op == "full":
        s = shape(x)
        if s is not None and len(keys) <= len(s) and all(is_scalar(k) and k is not NONE for k in keys):
            return x.args[1] if len(keys) == len(s) else full(s[len(keys):], x.args[1])
    return raw("index", x, tuple(keys))


def expand_dims(x, axis):
    r = rank(x)
    if r is not None and axis.op == "num" and axis.args[0] < 0:
        axis = C(int(axis.args[0]) + r + 1)
    return raw("expand_dims", x, axis)


def squeeze(x, axis=NONE):
    if x.op == "expand_dims":
        inner = x.args[0]
        s = shape(inner)
        if s is not None and not any(d is ONE for d in s):
            return inner
    s = shape(x)
    if s is not None and axis is NONE:
        if not any(d is ONE for d in s):
            return x
        if len(s) == 2 and s[1] is ONE and s[0] is not ONE:
            return index(x, (FULL, ZERO))
    return raw("squeeze", x, axis)


def atleast_1d(x):
    r = rank(x)
    if r is None:
        if x.op == "squeeze":
            return raw("atleast_1d", x)
        return raw("atleast_1d", x)
    if r >= 1:
        return x
    return expand_dims(x, ZERO)


def atleast_2d(x):
    r = rank(x)
    if r is None:
        return raw("atleast_2d", x)
    if r >= 2:
        return x
    if r == 1:
        return expand_dims(x, ZERO)
    return expand_dims(expand_dims(x, ZERO), ZERO)


def stack(e, v, n, axis=ZERO):
    """Array comprehension [e for v in range(n)] along 'axis'."""
    if e is BOT:
        return BOT
    if axis is ZERO and e.op == "index" and e.args[1][0] is v:
        base, rest = e.args[0], e.args[1][1:]
        if v not in support(base) and not any(v in support(k) for k in rest):
            if not rest:
                return base
            return index(base, (FULL,) + rest)
    if axis is ZERO and e is v:
        return raw("arange", n)
    return raw("stack", e, v, n, axis)


def full(shp, v):
    return raw("full", tuple(shp), v)


def transpose(x, perm=NONE):
    r = rank(x)
    if perm is NONE:
        if r is not None and r <= 1:
            return x
        if x.op == "transpose" and x.args[1] is NONE:
            return x.args[0]
        if x.op == "eye":
            return x
    elif perm.op == "tuple" and r is not None and all(p.op == "num" for p in perm.args):
        p = [int(q.args[0]) for q in perm.args]
        if p == list(range(r)):
            return x
        if p == list(range(r))[::-1]:
            return transpose(x, NONE)
    return raw("transpose", x, perm)


def where(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return where(c.args[0], b, a)
    if c.op == "le":
        return where(raw("lt", c.args[1], c.args[0]), b, a)
    if a.op == "where" and a.args[0] is c:
        a = a.args[1]
    if b.op == "where" and b.args[0] is c:
        b = b.args[2]
    return raw("where", c, a, b)


def scatter(mode, x, keys, v):
    if not isinstance(keys, tuple):
        keys = (keys,)
    if mode == "set" and x.op == "scatter" and x.args[0] == "set" and x.args[2] == keys:
        x = x.args[1]
    if len(keys) == 1 and keys[0].op == "vec" and mode in ("set", "add") and len(keys[0].args[0]) <= 8 and shape(v) is not None \
            and all(shape(k) == () for k in keys[0].args[0]):
        # one update after another
        for j, k in enumerate(keys[0].args[0]):
            x = scatter(mode, x, (k,), v if shape(v) == () else index(v, (C(j),)))
        return x
    if mode == "set" and x.op == "scatter" and x.args[0] == "set" and x.args[3] is v and shape(v) == () \
            and [k.id for k in x.args[2]] > [k.id for k in keys] and all(shape(k) == () for k in x.args[2] + tuple(keys)):
        # the same value written twice: in either order
        return raw("scatter", "set", scatter("set", x.args[1], keys, v), x.args[2], v)
    return raw("scatter", mode, x, tuple(keys), v)


def reduce_(kind, x, axis=NONE, keepdims=FALSE):
    if x is BOT:
        return BOT
    r = rank(x)
    if axis.op == "num" and axis.args[0] < 0 and r is not None:
        axis = C(int(axis.args[0]) + r)
    if r == 1 and axis is ZERO:
        axis = NONE
    if r == 0:
        return x if kind not in ("any_", "all_") else x
    if keepdims is not FALSE:
        return raw("reduce_keep", kind, x, axis, keepdims)
    if kind == "sum" and x.op == "stack" and axis is ZERO and x.args[3] is ZERO:
        return sumover(x.args[0], x.args[1], x.args[2])
    if kind == "sum" and x.op == "stack" and axis is NONE and rank(x.args[0]) == 0:
        return sumover(x.args[0], x.args[1], x.args[2])
    return raw("reduce", kind, x, axis)


def sumover(e, v, n):
    """Sum of scalar/array expression e over binder v in [0, n)."""
    if e is ZERO:
        return ZERO
    if v not in support(e):
        return mul(n, e)
    if e.op == "lin":
        const, terms = e.args[0], e.args[1]
        parts = [mul(raw("num", c), sumover(k, v, n)) for k, c in terms]
        if const:
            parts.append(mul(raw("num", const), n))
        return add(*parts)
    if e.op == "mono":
        out, inn = [], []
        for k, x in e.args[0]:
            (inn if v in support(k) or v in support(x) else out).append(power(k, x))
        if out:
            return mul(*out, sumover(mul(*inn), v, n))
    return raw("sumover", e, v, n)


def distdiv(a, b):
    """a / b, term by term"""
    if a.op != "lin":
        return div(a, b)
    return add(div(C(a.args[0]), b), *[mul(C(c), div(t, b)) for t, c in a.args[1]])


def _factors(q):
    out, d = [], 2
    while d * d <= q:
        e = 0
        while q % d == 0:
            q //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    if q > 1:
        out.append((q, 1))
    return out


def apply1(name, x):
    """Element-wise unary function."""
    if x is BOT:
        return BOT
    if name == "neg":
        return neg(x)
    if name == "sqrt":
        return power(x, C(Fraction(1, 2)))
    if name == "square":
        return power(x, C(2))
    if name == "reciprocal":
        return power(x, C(-1))
    if name == "abs" and x.op == "num":
        return C(abs(x.args[0]))
    if name == "exp" and x is ZERO:
        return ONE
    if name == "log2":
        return distdiv(apply1("log", x), apply1("log", C(2)))
    if name == "log10":
        return distdiv(apply1("log", x), apply1("log", C(10)))
    if name == "log" and x is ONE:
        return ZERO
    if name == "log":
        c, m = nd._as_mono(x)
        if c > 0 and c <= 10 ** 9 and all(k.op == "sym" and k.id in nd.NONNEG and e.op == "num" for k, e in m.items()):
            parts = [mul(e, raw("f", "log", k)) for k, e in m.items()]
            for q, sg in ((c.numerator, 1), (c.denominator, -1)):
                for pr, e in _factors(q):
                    parts.append(mul(C(sg * e), raw("f", "log", C(pr))))
            return add(*parts) if parts else ZERO
    if name == "abs":
        c, m = nd._as_mono(x)
        if c != 1 and m:
            return mul(C(abs(c)), apply1("abs", nd._from_mono(Fraction(1), m)))
        if x.op == "f" and x.args[0] == "abs":
            return x
    return raw("f", name, x)


def amax(a, b):
    """jnp.maximum (element-wise, NaN-propagating)."""
    if a is b:
        return a
    if a.op == "num" and b.op == "num":
        return C(max(a.args[0], b.args[0]))
    x, y = sorted((a, b), key=lambda n: n.id)
    return raw("maximum", x, y)


def amin(a, b):
    if a is b:
        return a
    if a.op == "num" and b.op == "num":
        return C(min(a.args[0], b.args[0]))
    x, y = sorted((a, b), key=lambda n: n.id)
    return raw("minimum", x, y)


def dot(a, b):
    """jnp.dot / matmul semantics for ranks <= 2."""
    ra, rb = rank(a), rank(b)
    if ra == 0 or rb == 0:
        return mul(a, b)
    if ra == 1 and rb == 1:
        x, y = sorted((a, b), key=lambda n: n.id)
        # pull scalar factors out, expand nothing else
        ca, ma = _pull(x)
        cb, mb = _pull(y)
        if ca is not ONE or cb is not ONE:
            return mul(ca, cb, dot(ma, mb))
        return raw("dot", x, y)
    ca, ma = _pull(a)
    cb, mb = _pull(b)
    if ca is not ONE or cb is not ONE:
        return mul(ca, cb, dot(ma, mb))
    return raw("matmul", a, b)


def _pull(x):
    """Split x into (rank-0 factor, rest)."""
    c, m = nd._as_mono(x)
    sc, rest = [C(c)], []
    for k, e in m.items():
        (sc if rank(k) == 0 and rank(e) == 0 else rest).append(power(k, e))
    if len(rest) == 0:
        return ONE, x
    if len(sc) == 1 and c == 1:
        return ONE, x
    return mul(*sc), mul(*rest)


def length(x):
    """python len()"""
    if x.op in ("tuple", "list"):
        return C(len(x.args))
    if x.op == "phi":
        return phi(x.args[0], length(x.args[1]), length(x.args[2]))
    if x.op == "dict":
        return C(len(x.args[0]))
    s = shape(x)
    if s:
        return s[0]
    return raw("len", x)


def floordiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return C(a.args[0] // b.args[0])
    if b is ONE:
        return a
    q = div(a, b)
    c, m = nd._as_mono(q)
    if c.denominator == 1 and all(e.op == "num" and e.args[0] > 0 and e.args[0].denominator == 1 for e in m.values()) \
            and q.op in ("mono", "sym", "num", "len") and q.op != "lin":
        return q
    if q.op == "lin" and q.args[0] == 0 and len(q.args[1]) == 1 and q.args[1][0][1].denominator == 1 \
            and all(e.op == "num" and e.args[0] > 0 for e in nd._as_mono(q.args[1][0][0])[1].values()):
        return q
    return raw("floordiv", a, b)


def rounding(kind, x):
    if x.op == "num":
        import math
        return C(getattr(math, kind)(x.args[0]))
    r = _log_ratio(x)
    if r is not None:
        a, b = r                    # x = log(a) / log(b), not an integer
        k = 0
        if a > 1 and b > 1:
            while Fraction(b) ** (k + 1) < a:
                k += 1
            return C(k if kind == "floor" else k + 1)
    return raw(kind, x)


def _log_ratio(x):
    """x = (sum of q * log(prime)) / log(b) with rational q -> (a, b), scaled to integers"""
    terms = [(Fraction(1), x)] if x.op != "lin" else [(c, t) for t, c in x.args[1]]
    a, b, const = Fraction(1), None, x.args[0] if x.op == "lin" else 0
    import math
    pows = []
    for c, t in terms:
        c2, m = nd._as_mono(t)
        c = c * c2
        num = den = None
        for k, e in m.items():
            if not (k.op == "f" and k.args[0] == "log" and k.args[1].op == "num" and e.op == "num"):
                return None
            if e.args[0] == 1 and num is None:
                num = k.args[1].args[0]
            elif e.args[0] == -1 and den is None:
                den = k.args[1].args[0]
            else:
                return None
        if num is None or den is None or (b is not None and b != den) or abs(c) > 200:
            return None
        b = den
        pows.append((Fraction(num), c))
    if b is None:
        return None
    pows.append((Fraction(b), Fraction(const)))
    scale = 1                       # x = log(a) / log(b ** scale)
    for _, c in pows:
        scale = scale * c.denominator // math.gcd(scale, c.denominator)
    if scale > 12:
        return None
    for q, c in pows:
        a *= q ** int(c * scale)
    return a, Fraction(b) ** scale


def loopout(lo, hi, iv, lv, comps):
    """Value of carry 'lv' after the fori/scan loop; comps = ((lv, init, body), ...)."""
    d = {c[0]: c for c in comps}
    # invariant carries were removed by the caller
    need, todo = [], [lv]
    while todo:
        v = todo.pop()
        if v in need:
            continue
        need.append(v)
        for s in support(d[v][2]):
            if s.op == "lv" and s in d and s not in need:
                todo.append(s)
    comps = tuple(sorted((d[v] for v in need), key=lambda c: c[0].id))
    init, body = d[lv][1], d[lv][2]
    if len(comps) == 1 and lo is ZERO:
        e = sub(body, lv) if nd._numeric(body) else None
        if e is not None and lv not in support(e) and (iv is not None):
            return add(init, sumover(e, iv, hi))
    return raw("loopout", lo, hi, iv, lv, comps)


def whileout(cond, lv, comps):
    d = {c[0]: c for c in comps}
    need, todo = [], [lv] + [s for s in support(cond) if s in d]
    while todo:
        v = todo.pop()
        if v in need:
            continue
        need.append(v)
        for s in support(d[v][2]):
            if s in d and s not in need:
                todo.append(s)
    comps = tuple(sorted((d[v] for v in need), key=lambda c: c[0].id))
    return raw("whileout", cond, lv, comps)


def listcat(a, b):
    if a is BOT or b is BOT:
        # bounded recursion: an unexplored branch contributes nothing
        return BOT if (a is BOT and b is BOT) else (a if b is BOT else b)
    if a.op == "list" and b.op == "list":
        return lst(*(a.args + b.args))
    if a.op == "tuple" and b.op == "tuple":
        return tup(*(a.args + b.args))
    return raw("listcat", a, b)


def _lin(const, terms):
    return add(raw("num", const), *[mul(raw("num", c), k) for k, c in terms])


REBUILD = {
    "lin": _lin,
    "mono": lambda m: mul(*[power(k, e) for k, e in m]),
    "index": lambda x, k: index(x, k),
    "expand_dims": expand_dims,
    "squeeze": squeeze,
    "atleast_1d": atleast_1d,
    "atleast_2d": atleast_2d,
    "stack": stack,
    "transpose": transpose,
    "where": where,
    "scatter": scatter,
    "reduce": lambda k, x, a: reduce_(k, x, a),
    "sumover": sumover,
    "f": apply1,
    "maximum": amax,
    "minimum": amin,
    "dot": dot,
    "matmul": dot,
    "lt": lambda a, b: cmp("lt", a, b),
    "le": lambda a, b: cmp("le", a, b),
    "eq": lambda a, b: cmp("eq", a, b),
    "not": lnot,
    "and": land,
    "or": lor,
    "phi": phi,
    "pmax": pmax,
    "pmin": pmin,
    "floordiv": floordiv,
    "ceil": lambda x: rounding("ceil", x),
    "floor": lambda x: rounding("floor", x),
    "len": length,
    "listcat": listcat,
    "loopout": loopout,
    "whileout": whileout,
}
