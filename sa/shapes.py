"""Symbolic shape inference (tuples of dimension nodes, or None when unknown)."""
from .nodes import *
from . import nodes as nd


def _floordiv(a, b):
    from .ops import floordiv
    return floordiv(a, b)




def bcast(*shps):
    if any(s is None for s in shps):
        return None
    out = []
    n = max((len(s) for s in shps), default=0)
    for i in range(1, n + 1):
        d = ONE
        for s in shps:
            if len(s) >= i:
                e = s[-i]
                if e is ONE:
                    continue
                if d is ONE or d is e:
                    d = e
                # conflicting symbolic dims: keep first (program is assumed type-correct)
        out.append(d)
    return tuple(reversed(out))


BROADCASTING = ("lin", "mono", "maximum", "minimum", "where", "lt", "le", "eq", "and", "or", "floordiv", "mod")


def _plain(d):
    return d.op == "sym" or d.op == "num"


def conflict(n):
    """Two incompatible plain dimensions (distinct input sizes, or distinct literals) that n broadcasts together."""
    if n.op == "lin":
        ops = [k for k, _ in n.args[1]]
    elif n.op == "mono":
        ops = [k for k, _ in n.args[0]]
    else:
        ops = n.args
    shps = [shape(o) for o in ops]
    shps = [s for s in shps if s]
    for i in range(1, max((len(s) for s in shps), default=0) + 1):
        ds = [s[-i] for s in shps if len(s) >= i and s[-i] is not ONE]
        ds = [d for d in ds if _plain(d)]
        for d in ds[1:]:
            if d is not ds[0]:
                return ds[0], d
    return None


def _slice_dim(d, sl):
    a, b, st = sl.args
    if st is not NONE and st is not ONE:
        if a is NONE and b is NONE and st.op == "num" and st.args[0] == -1:
            return d
        return None
    lo = ZERO if a is NONE else a
    hi = d if b is NONE else b
    if hi.op == "num" and hi.args[0] < 0:
        hi = add(d, hi)
    elif b is not NONE:
        hi = pmin(d, hi)
    if lo.op == "num" and lo.args[0] < 0:
        return neg(lo)
    if lo is ZERO:
        return hi
    return sub(hi, pmin(lo, hi)) if not provable_le(lo, hi) else sub(hi, lo)


def index_shape(s, keys):
    if s is None:
        return None
    out, pos = [], 0
    adv, advpos, sep = [], None, False
    for k in keys:
        if k is NONE:
            out.append(ONE)
            continue
        if pos >= len(s):
            return None
        if k.op == "slice":
            d = _slice_dim(s[pos], k)
            if d is None:
                return None
            out.append(d)
            pos += 1
            continue
        ks = () if k.op in ("num", "iv", "vi") else shape(k)
        if ks is None:
            return None
        if advpos is None:
            advpos = len(out)
        adv.append(ks)
        pos += 1
    out.extend(s[pos:])
    if adv:
        b = bcast(*adv)
        if b is None:
            return None
        out[advpos:advpos] = list(b)
    return tuple(out)


def infer(n):
    op, a = n.op, n.args
    f = RULES.get(op)
    if f is None:
        return None
    try:
        return f(n, *a)
    except Exception:   # unknown shape is always a safe answer
        return None


def _phi(n, c, x, y):
    s, t = shape(x), shape(y)
    if s is None or t is None:
        return None
    if s == t:
        return s
    if len(s) == len(t):
        return tuple(phi(c, p, q) for p, q in zip(s, t))
    return None


def _reduce(n, kind, x, axis):
    s = shape(x)
    if axis is NONE:
        return ()
    if s is None:
        return None
    if axis.op == "num":
        i = int(axis.args[0])
        return s[:i] + s[i + 1:]
    if axis.op == "tuple":
        drop = {int(q.args[0]) % len(s) for q in axis.args}
        return tuple(d for i, d in enumerate(s) if i not in drop)
    return None


def _stack(n, e, v, m, axis):
    s = shape(e)
    if s is None:
        return None
    i = int(axis.args[0])
    return s[:i] + (m,) + s[i:]


def _matmul(n, a, b):
    s, t = shape(a), shape(b)
    if s is None or t is None:
        return None
    if len(s) == 1 and len(t) == 1:
        return ()
    if len(t) == 1:
        return s[:-1]
    if len(s) == 1:
        return t[:-2] + t[-1:]
    return s[:-1] + t[:-2] + t[-1:]


def _reshape(n, x, shp, order="C"):
    s = shape(x)
    dims = list(shp)
    if any(d.op == "num" and d.args[0] == -1 for d in dims):
        if s is None:
            return None
        total = ONE
        for d in s:
            total = mul(total, d)
        rest = ONE
        for d in dims:
            if not (d.op == "num" and d.args[0] == -1):
                rest = mul(rest, d)
        from .nodes import div
        q = div(total, rest)
        dims = [q if (d.op == "num" and d.args[0] == -1) else d for d in dims]
    return tuple(dims)


def _concat(n, xs, axis):
    ss = [shape(x) for x in xs]
    if any(s is None for s in ss):
        return None
    i = int(axis.args[0])
    tot = ZERO
    for s in ss:
        tot = add(tot, s[i])
    b = list(ss[0])
    b[i] = tot
    return tuple(b)


def _pad(n, x, widths, val):
    s = shape(x)
    if s is None:
        return None
    if len(widths) == 1 and len(s) > 1:
        widths = widths * len(s)
    return tuple(add(d, w[0], w[1]) for d, w in zip(s, widths))


def _loop(n, lo, hi, iv, lv, comps):
    return shape(lv)


def _perm(s, perm):
    return tuple(s[int(p.args[0])] for p in perm.args)


def _app(n, f, args, kw):
    if f.op == "sym" and f.args[0] in FN_SHAPE:
        return FN_SHAPE[f.args[0]]
    if len(args) == 1 and ((f.op == "sym" and f.args[1] == "scorefn") or (f.op == "m" and f.args[0] == "match")):
        return shape(args[0])
    if len(args) == 2 and f.op == "attr" and f.args[1] in ("apply_fn", "apply"):      # a score network: R^d -> R^d
        return shape(args[1])
    if len(args) == 1 and f.op == "attr" and f.args[1] in ("logpdf", "pdf", "evaluate") and f.args[0].op in ("extcall", "extobj"):
        s = shape(args[0])
        return None if s is None else s[-1:]
    return None


def _svd(n, x, full, i):
    a, b = shape(x)
    k = pmin(a, b)
    if i is ONE:
        return (k,)
    if i is ZERO:
        return (a, a if full is TRUE else k)
    return (b if full is TRUE else k, b)


FN_SHAPE = {}      # name of an opaque function symbol -> shape of its value


def _attr(n, x, name):
    if x.op == "extcall" and x.args[0] in ("jax.numpy.finfo", "jax.numpy.iinfo") and name in ("eps", "max", "min", "tiny"):
        return ()
    return None


RULES = {
    "app": _app,
    "attr": _attr,
    "num": lambda n, v: (),
    "inf": lambda n: (),
    "nan": lambda n: (),
    "c": lambda n, v: () if isinstance(v, bool) else None,
    "lin": lambda n, c, ts: bcast(*[shape(k) for k, _ in ts]),
    "mono": lambda n, ms: bcast(*([shape(k) for k, _ in ms] + [shape(e) for _, e in ms])),
    "f": lambda n, name, x: shape(x),
    "maximum": lambda n, a, b: bcast(shape(a), shape(b)),
    "minimum": lambda n, a, b: bcast(shape(a), shape(b)),
    "where": lambda n, c, a, b: bcast(shape(c), shape(a), shape(b)),
    "lt": lambda n, a, b: bcast(shape(a), shape(b)),
    "le": lambda n, a, b: bcast(shape(a), shape(b)),
    "eq": lambda n, a, b: bcast(shape(a), shape(b)),
    "not": lambda n, a: shape(a),
    "and": lambda n, *xs: bcast(*[shape(x) for x in xs]),
    "or": lambda n, *xs: bcast(*[shape(x) for x in xs]),
    "phi": _phi,
    "pmax": lambda n, *xs: (),
    "pmin": lambda n, *xs: (),
    "floordiv": lambda n, a, b: bcast(shape(a), shape(b)),
    "mod": lambda n, a, b: bcast(shape(a), shape(b)),
    "ceil": lambda n, a: (),
    "floor": lambda n, a: (),
    "len": lambda n, a: (),
    "iv": lambda n, *a: (),
    "vi": lambda n, *a: (),
    "lv": lambda n, lvl, init, *r: shape(init),
    "index": lambda n, x, k: index_shape(shape(x), k),
    "expand_dims": lambda n, x, ax: (lambda s: None if s is None else s[:int(ax.args[0])] + (ONE,) + s[int(ax.args[0]):])(shape(x)),
    "squeeze": lambda n, x, ax: (lambda s: None if s is None else tuple(d for d in s if d is not ONE))(shape(x)),
    "atleast_1d": lambda n, x: None,
    "stack": _stack,
    "sumover": lambda n, e, v, m: shape(e),
    "transpose": lambda n, x, p: (lambda s: None if s is None else (tuple(reversed(s)) if p is NONE else _perm(s, p)))(shape(x)),
    "full": lambda n, s, v: s,
    "vec": lambda n, xs: (C(len(xs)),) + shape(xs[0]) if shape(xs[0]) is not None else None,
    "broadcast": lambda n, x, d: d,
    "tril": lambda n, x, k: shape(x),
    "filldiag": lambda n, x, v: shape(x),
    "map": lambda n, e, v, m: None,
    "pi": lambda n: (),
    "int_": lambda n, x: (),
    "jvp": lambda n, body, *r: shape(body),
    "sort": lambda n, x: shape(x),
    "la_inv": lambda n, x: shape(x),
    "la_pinv": lambda n, x: tuple(reversed(shape(x))),
    "la_qr": lambda n, x, i: (lambda s: (s[0], pmin(s[0], s[1])) if i is ZERO else (pmin(s[0], s[1]), s[1]))(shape(x)),
    "la_svd": _svd,
    "la_lstsq": lambda n, x, y, rc, i: (lambda s, t: (s[1],) + t[1:] if i is ZERO else None)(shape(x), shape(y)),
    "la_eigh": lambda n, x, i: (lambda s: (s[0],) if i is ZERO else s)(shape(x)),
    "eye": lambda n, a, b: (a, b),
    "arange": lambda n, m: (m,),
    "reduce": _reduce,
    "dot": lambda n, a, b: (),
    "matmul": _matmul,
    "outer": lambda n, a, b: (shape(a)[0], shape(b)[0]),
    "scatter": lambda n, m, x, k, v: shape(x),
    "reshape": _reshape,
    "concat": _concat,
    "pad": _pad,
    "tile": lambda n, x, r: (lambda s: tuple(list(r[:len(r) - len(s)]) + [mul(d, q) for d, q in zip(s, r[len(r) - len(s):])]))(shape(x)),
    "loopout": _loop,
    "whileout": lambda n, c, lv, comps: shape(lv),
    "norm": lambda n, x, o, ax: () if ax is NONE else None,
    "softmax": lambda n, x, ax: shape(x),
    "argsel": lambda n, kind, x, ax: () if ax is NONE else _reduce(n, kind, x, ax),
    "argsort": lambda n, x, *r: shape(x),
    "isin": lambda n, a, b: shape(a),
    "choice": lambda n, key, a, shp, rep, p: shp if isinstance(shp, tuple) else None,
    "permutation": lambda n, key, x: (x,) if shape(x) == () else shape(x),
    "draw": lambda n, kind, key, shp, *r: shp,
    "fold_in": lambda n, k, i: (),
    "split": lambda n, k, m: (m,),
    "key": lambda n, s: (),
    "solve": lambda n, a, b: shape(b),
    "diag": lambda n, x: (lambda s: (s[0], s[0]) if len(s) == 1 else (s[0],))(shape(x)),
    "bdiag": lambda n, x: None if shape(x) is None else shape(x)[:-1],
    "triu": lambda n, x, k: shape(x),
    "flatnonzero": lambda n, x, size, fill: (size,) if size is not NONE else (raw("nnz", x),),
    "nnz": lambda n, x: (),
    "thinidx": lambda n, m, *r: (m,),
    "treeorder": lambda n, nm, leaf, x, w: shape(x)[:1],
    "baseidx": lambda n, m, *r: (m,),
    "basew": lambda n, m, *r: (m,),
    "halfidx": lambda n, i, x, *r: (_floordiv(shape(x)[0], C(2)),) if shape(x) else None,
    "hcol": lambda n, *xs: None,
    "nan_to_num": lambda n, x, *r: shape(x),
    "average": lambda n, x, ax, w: _reduce(n, "avg", x, ax),
    "clipped": lambda n, x: shape(x),
    "callback": lambda n, fn, shp, *a: shp,
    "sc_gather": lambda n, *a: None,
    "outerprod": lambda n, a, b: shape(a) + shape(b),
    "solve_nd": lambda n, a, b: shape(b),
    "roll": lambda n, x, *r: shape(x),
    "cumsum": lambda n, x, *r: shape(x),
}


def m_shape(n, name, recv, args):
    """Shapes of opaque kernel methods."""
    def d0(x):
        from .ops import length
        if x.op == "obj":
            f = dict(x.args[1])
            if "data" in f:
                s = shape(f["data"])
                return s[0] if s else None
        s = shape(x)
        if s is None:
            return None
        return s[0] if len(s) == 2 else ONE
    if name in ("compute", "divergence_x_grad_y"):
        a, b = d0(args[0]), d0(args[1])
        return None if a is None or b is None else (a, b)
    if name in ("grad_x", "grad_y"):
        a, b = d0(args[0]), d0(args[1])
        sx = shape(args[0])
        if a is None or b is None or sx is None:
            return None
        return (a, b, sx[-1])
    if name in ("compute_elementwise", "divergence_x_grad_y_elementwise"):
        return ()
    if name in ("grad_x_elementwise", "grad_y_elementwise"):
        return shape(args[0])
    if name == "compute_mean":
        ax = args[2]
        if ax is NONE:
            return ()
        d = d0(args[1] if ax is ZERO else args[0])
        return None if d is None else (d,)
    if name == "gramian_row_mean":
        d = d0(args[0])
        return None if d is None else (d,)
    if name == "solve_stack":
        return shape(args[2]) if len(args) > 2 else None
    return None


RULES["m"] = m_shape
