"""Models of the external libraries (jax, equinox, numpy, math, builtins)."""
import ast
from fractions import Fraction

from .nodes import *
from . import nodes as nd
from .ops import *
from . import ops
from .loader import ClassInfo

PI = raw("pi")
SHAPES[PI.id] = ()

CONSTS = {}
for _m in ("jax.numpy", "numpy", "math"):
    CONSTS[_m + ".inf"] = INF
    CONSTS[_m + ".nan"] = NAN
    CONSTS[_m + ".pi"] = PI
    CONSTS[_m + ".newaxis"] = NONE
CONSTS["typing.TYPE_CHECKING"] = FALSE

MODULES = {
    "jax", "jax.numpy", "jax.random", "jax.lax", "jax.nn", "jax.numpy.linalg", "jax.scipy", "jax.scipy.stats",
    "jax.scipy.linalg", "jax.scipy.special", "jax.tree_util", "jax.tree", "jax.errors", "equinox", "numpy", "numpy.linalg",
    "numpy.random", "math", "functools", "itertools", "operator", "warnings", "typing", "typing_extensions",
    "optax", "flax", "flax.linen", "flax.training", "flax.training.train_state", "jaxtyping", "jaxopt", "tqdm",
    "sklearn.neighbors", "logging", "time", "sys", "abc", "collections", "collections.abc", "copy", "random", "os",
    "scipy", "scipy.stats", "dataclasses", "jax.experimental", "jax.config",
}

ARRAY_METHODS = {
    "sum", "mean", "max", "min", "any", "all", "reshape", "ravel", "flatten", "squeeze", "dot", "astype", "copy",
    "transpose", "argmin", "argmax", "argsort", "item", "tolist", "block_until_ready", "sort", "cumsum", "take",
    "round", "std", "var", "prod", "diagonal", "trace", "clip", "conj", "swapaxes", "nonzero", "items", "keys",
    "values", "get", "append", "extend", "pop", "split", "format", "lower", "upper", "join", "startswith",
    "endswith", "strip", "replace", "repeat", "dot", "fill", "__len__", "update", "setdefault", "index", "count", "bit_length", "is_integer", "as_integer_ratio",
}

UNARY = {
    "exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "sqrt": "sqrt",
    "sign": "sign", "abs": "abs", "absolute": "abs", "fabs": "abs", "negative": "neg", "square": "square",
    "reciprocal": "reciprocal", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "log2": "log2",
    "log10": "log10", "log1p": "log1p", "expm1": "expm1", "sinh": "sinh", "cosh": "cosh", "arctan": "arctan",
    "floor": "floor_", "ceil": "ceil_", "round": "round_", "rint": "round_", "gamma": "gamma", "lgamma": "lgamma",
    "factorial": "factorial", "cbrt": "cbrt", "real": "real", "conjugate": "real", "positive": "pos",
}
CMP = {"greater": "gt", "less": "lt", "greater_equal": "ge", "less_equal": "le", "equal": "eq", "not_equal": "ne"}


def P(args, kwargs, *spec):
    """Positional/keyword binding; spec entries are 'name' or ('name', default)."""
    out = []
    for i, s in enumerate(spec):
        nm, d = (s, None) if isinstance(s, str) else s
        if i < len(args):
            out.append(args[i])
        elif nm in kwargs:
            out.append(kwargs[nm])
        else:
            out.append(d)
    return out


def nan_masked(x, sign):
    """v, when x is where(isnan(v), -inf, v) (sign -1) or where(isnan(v), inf, v) (sign 1)."""
    if x.op == "where" and x.args[0].op == "f" and x.args[0].args[0] == "isnan" and x.args[0].args[1] is x.args[2]:
        if x.args[1] is (nd.INF if sign > 0 else nd.neg(nd.INF)):
            return x.args[2]
    return None


def mkarr(I, x):
    x = I.arr(x)
    if x.op in ("tuple", "list"):
        if not x.args:
            return full((ZERO,), ZERO)
        xs = [mkarr(I, a) for a in x.args]
        if any(a is BOT for a in xs):
            return BOT
        return raw("vec", tuple(xs))
    if x.op == "c" and isinstance(x.args[0], bool):
        return x
    if x.op == "map":
        return stack(x.args[0], x.args[1], x.args[2])
    if x.op == "range":
        if len(x.args) == 1:
            return raw("arange", x.args[0])
    return x


def dims(I, s):
    """Shape argument -> tuple of dim nodes or None."""
    if s.op in ("tuple", "list"):
        return tuple(s.args)
    if s.op == "shapeof":
        return None
    it = I.iterate(s)
    if it is not None:
        return tuple(it)
    if s.op in ("num", "sym", "lin", "mono", "len", "floordiv", "pmax", "pmin", "index", "attr", "phi", "ceil", "floor", "f", "nnz"):
        return (s,)
    return None


def axis_norm(x, axis):
    r = rank(x)
    if axis.op == "num" and axis.args[0] < 0 and r is not None:
        return C(int(axis.args[0]) + r)
    if axis.op in ("tuple", "list") and r is not None and all(a.op == "num" for a in axis.args):
        return tup(*[C(int(a.args[0]) % r) for a in axis.args])
    return axis


def reduction(I, kind, args, kwargs):
    x, axis, = P(args, kwargs, "a", ("axis", NONE))
    x = mkarr(I, x)
    keep = kwargs.get("keepdims", FALSE)
    axis = axis_norm(x, axis)
    if x is BOT:
        return BOT
    wh = kwargs.get("where")
    if wh is not None and kind == "sum":
        x = where(wh, x, ZERO)
    elif wh is not None:
        return raw("extcall", "jax.numpy." + kind, (x, axis), tuple(sorted(kwargs.items())))
    if kind == "mean":
        s = shape(x)
        n = None
        if s is not None:
            if axis is NONE:
                n = mul(*s) if s else ONE
            elif axis.op == "num":
                n = s[int(axis.args[0])]
            elif axis.op == "tuple":
                n = mul(*[s[int(a.args[0])] for a in axis.args])
        if n is None:
            return raw("reduce", "mean", x, axis) if keep is FALSE else raw("reduce_keep", "mean", x, axis, keep)
        if keep is FALSE:
            return div(reduce_("sum", x, axis), n)
        return div(keepdims(reduce_("sum", x, axis), x, axis), n)
    r = reduce_(kind, x, axis)
    if keep is not FALSE:
        return keepdims(r, x, axis)
    return r


def keepdims(r, x, axis):
    if axis.op == "num":
        return expand_dims(r, axis)
    if axis is NONE and rank(x) is not None:
        for _ in range(rank(x)):
            r = expand_dims(r, ZERO)
        return r
    return unk_("keepdims")


def unk_(s):
    from .interp import unk
    return unk(s)


def nary(I, f, args):
    return f(*[I.arr(mkarr(I, a)) for a in args])


def clip(x, lo, hi):
    if lo is not None and lo is not NONE:
        x = amax(x, lo)
    if hi is not None and hi is not NONE:
        x = amin(x, hi)
    return x


def concat(I, xs, axis=ZERO):
    if xs.op in ("tuple", "list"):
        parts = [mkarr(I, a) for a in xs.args]
        if any(p is BOT for p in parts):
            return BOT
        r = next((rank(p) for p in parts if rank(p) is not None), None)
        if axis.op == "num" and axis.args[0] < 0 and r is not None:
            axis = C(int(axis.args[0]) + r)
        if axis is NONE:
            parts = [ravel(p) for p in parts]
            axis = ZERO
        if len(parts) == 1:
            return parts[0]
        flat = []
        for p in parts:
            if p.op == "concat" and p.args[1] is axis:
                flat.extend(p.args[0])
            else:
                flat.append(p)
        if axis.op == "num":
            ax = int(axis.args[0])
            full_ = [p for p in flat if not (shape(p) is not None and len(shape(p)) > ax and shape(p)[ax] is ZERO)]
            if full_:
                flat = full_
            if len(flat) == 1:
                return flat[0]
        return raw("concat", tuple(flat), axis)
    sh = shape(xs)
    if sh is not None and len(sh) >= 2 and axis is ZERO:
        return reshape(I, xs, tup(mul(sh[0], sh[1]), *sh[2:]))
    if xs.op == "phi":
        return phi(xs.args[0], concat(I, xs.args[1], axis), concat(I, xs.args[2], axis))
    if xs is BOT:
        return BOT
    return raw("concatlist", xs, axis)


def ravel(x):
    r = rank(x)
    if r == 1:
        return x
    if r == 0:
        return expand_dims(x, ZERO)
    if x.op == "expand_dims" and rank(x.args[0]) == 1:
        return x.args[0]
    s = shape(x)
    if s is not None and len(s) == 2 and s[1] is ONE:
        return index(x, (FULL, ZERO))
    return raw("reshape", x, (C(-1),), "C")


def reshape(I, x, shp, order="C"):
    d = dims(I, shp)
    if d is None:
        return raw("reshape_", x, shp, order)
    s = shape(x)
    if len(d) == 1 and d[0].op == "num" and d[0].args[0] == -1:
        if order == "C" or (s is not None and len(s) <= 1):
            return ravel(x)
        return raw("reshape", x, d, order)
    if s is not None and len(s) == len(d) and all(p is q or (q.op == "num" and q.args[0] == -1) for p, q in zip(s, d)) \
            and sum(1 for q in d if q.op == "num" and q.args[0] == -1) <= 1:
        return x
    if s is not None and len(s) == 1 and len(d) == 2 and order == "C":
        if d[1] is ONE and (d[0] is s[0] or (d[0].op == "num" and d[0].args[0] == -1)):
            return expand_dims(x, ONE)
        if d[0] is ONE and (d[1] is s[0] or (d[1].op == "num" and d[1].args[0] == -1)):
            return expand_dims(x, ZERO)
    return raw("reshape", x, d, order)


def norm(I, x, ord_, axis, keep=FALSE):
    axis = axis_norm(x, axis)
    if ord_ in (NONE, C(2)) and (rank(x) == 1 or axis is not NONE):
        r = power(reduce_("sum", power(x, C(2)), axis), C(Fraction(1, 2)))
    elif ord_ is ONE and (rank(x) == 1 or axis is not NONE):
        r = reduce_("sum", apply1("abs", x), axis)
    else:
        r = raw("norm", x, ord_, axis)
    if keep is not FALSE:
        return keepdims(r, x, axis)
    return r


def isinstance_(I, x, c):
    if x is BOT:
        return BOT
    if c.op in ("tuple", "list"):
        return lor(*[isinstance_(I, x, k) for k in c.args])
    if x.op == "phi":
        return phi(x.args[0], isinstance_(I, x.args[1], c), isinstance_(I, x.args[2], c))
    if c.op == "cls":
        want = c.args[0]
        k = I.class_of(x)
        if k is not None:
            if k.is_sub(want):
                return TRUE
            if x.op in ("obj", "mutobj"):
                return FALSE
            if x.op == "sym" and "exact" in x.args[2:]:
                return FALSE
            return raw("isinst", x, c)
        if x.op in ("num", "c", "tuple", "list", "dict", "clo", "cls", "inf", "nan", "pi", "ext"):
            return FALSE
        if x.op == "sym" and isinstance(x.args[1], str) and x.args[1] != "any":
            return FALSE
        if shape(x) is not None or x.op in ("stack", "index", "lin", "mono", "f"):
            return FALSE
        return raw("isinst", x, c)
    if c.op == "ext":
        nm = c.args[0].split(".")[-1]
        full_ = c.args[0]
        isarr = full_ in ("jax.Array", "jaxtyping.Array", "numpy.ndarray", "jax.numpy.ndarray")
        if x is NONE:
            return C(nm == "NoneType")
        if x.op == "num":
            if nm == "int":
                return C(x.args[0].denominator == 1)
            if nm == "float":
                return C(x.args[0].denominator != 1)
            return FALSE if nm in ("str", "tuple", "list", "dict", "bool") or isarr else raw("isinst", x, c)
        if x.op == "c":
            return C((nm == "str" and isinstance(x.args[0], str)) or (nm in ("bool", "int") and isinstance(x.args[0], bool)))
        if x.op in ("tuple", "list", "dict"):
            return C(nm == x.op or (nm in ("Sequence", "Iterable") and x.op != "dict"))
        if x.op in ("obj", "clo", "cls"):
            return C(nm == "Callable" and x.op != "obj") if nm in ("int", "float", "str", "bool", "tuple", "list", "dict", "Callable") or isarr else raw("isinst", x, c)
        if x.op == "sym":
            k = x.args[1]
            if k in ("int", "float", "bool"):
                if nm in ("int", "float", "bool"):
                    return C(nm == k)
                if isarr or nm in ("str", "tuple", "list", "dict"):
                    return FALSE
            if k in ("arr", "key"):
                if full_ in ("jax.Array", "jaxtyping.Array", "jax.numpy.ndarray"):
                    return TRUE
                if nm in ("int", "float", "bool", "str", "tuple", "list", "dict"):
                    return FALSE
            if isinstance(k, ClassInfo) and nm in ("int", "float", "bool", "str", "tuple", "list", "dict"):
                return FALSE
    return raw("isinst", x, c)


def draw_event(I, kind, key, node):
    I.event("draw", what=kind, key=key, node=node)
    return node


def b_sum(I, xs, start=ZERO):
    it = I.iterate(xs)
    if it is not None:
        acc = start
        for x in it:
            acc = I.binop(ast.Add, acc, x) if not (acc is ZERO and x.op == "list") else x
        return acc
    if xs.op == "map":
        return sumover(xs.args[0], xs.args[1], xs.args[2])
    if shape(xs):
        return I.binop(ast.Add, reduction(I, "sum", [xs, ZERO], {}), start)
    return raw("extcall", "builtins.sum", (xs, start), ())


def builtin(I, nm, args, kwargs):
    a0 = args[0] if args else None
    if nm == "len":
        if a0.op == "obj":
            c = I.class_of(a0)
            m = c.find("__len__") if c else None
            if m:
                return I.call(I.bind_method(a0, *m), [], {})
        if a0.op not in ("tuple", "list", "dict", "phi") and I.class_of(a0) is not None:
            c = I.class_of(a0)
            if c.find("__len__"):
                return raw("len", a0)
        if a0.op == "range" and len(a0.args) == 1:
            return a0.args[0]
        if a0.op == "map":
            return a0.args[2]
        return length(a0)
    if nm == "range":
        return raw("range", *([ZERO] if False else []), *args) if len(args) != 2 or args[0] is not ZERO else raw("range", args[1])
    if nm in ("int", "float"):
        if not args:
            return ZERO
        if a0.op == "num":
            v = a0.args[0]
            return C(int(v)) if nm == "int" else a0
        if a0.op in ("ceil", "floor", "floordiv", "len", "int_"):
            return a0
        if a0.op == "sym" and a0.args[1] == nm:
            return a0
        I.event("concretise", node=a0, what=nm)
        if a0.id in I.log_differences and nm == "int":
            I.event("logfloor", node=a0)
        if nm == "int" and (ops._log_ratio(a0) is not None or nd.nonneg(a0)) and not _is_int(a0):
            return rounding("floor", a0)
        return a0 if nm == "float" else (a0 if a0.op in ("sym", "attr", "lin", "mono", "pmax", "pmin") and _is_int(a0) else raw("int_", a0))
    if nm == "bool":
        I.event("concretise", node=a0, what="bool")
        return I.truth(a0)
    if nm == "isinstance":
        return isinstance_(I, args[0], args[1])
    if nm == "issubclass":
        if args[0].op == args[1].op == "cls":
            return C(args[0].args[0].is_sub(args[1].args[0]))
        return raw("issub", args[0], args[1])
    if nm == "type":
        if a0.op in ("obj", "mutobj"):
            return raw("cls", I.class_of(a0))
        return raw("typeof", a0)
    if nm in ("max", "min"):
        xs = args
        if len(args) == 1:
            xs = I.iterate(a0)
            if xs is None:
                return raw("extcall", "builtins." + nm, tuple(args), tuple(sorted(kwargs.items())))
        if any(x is BOT for x in xs):
            return BOT
        if not xs:
            return kwargs.get("default", BOT)
        if "key" in kwargs:
            return raw("extcall", "builtins." + nm, tuple(args), tuple(sorted(kwargs.items())))
        return (pmax if nm == "max" else pmin)(*xs)
    if nm == "sum":
        return b_sum(I, *P(args, kwargs, "x", ("start", ZERO)))
    if nm == "abs":
        return apply1("abs", I.arr(a0))
    if nm == "round":
        return raw("f", "round_", a0) if len(args) == 1 else raw("extcall", "builtins.round", tuple(args), ())
    if nm == "pow":
        return I.binop(ast.Pow, args[0], args[1])
    if nm == "zip":
        its = [I.iterate(a) for a in args]
        if all(i is not None for i in its):
            return lst(*[tup(*x) for x in zip(*its)])
        return raw("zip", *args)
    if nm == "enumerate":
        it = I.iterate(a0)
        if it is not None:
            st = int(args[1].args[0]) if len(args) > 1 and args[1].op == "num" else 0
            return lst(*[tup(C(i + st), x) for i, x in enumerate(it)])
        return raw("enumerate", a0)
    if nm == "reversed":
        it = I.iterate(a0)
        return lst(*reversed(it)) if it is not None else raw("reversed", a0)
    if nm == "sorted":
        return raw("extcall", "builtins.sorted", tuple(args), tuple(sorted(kwargs.items())))
    if nm in ("list", "tuple", "set", "frozenset", "iter"):
        if not args:
            return lst() if nm != "tuple" else tup()
        it = I.iterate(a0)
        if it is not None:
            return raw("tuple" if nm == "tuple" else "list", *it)
        return a0
    if nm == "dict":
        its = list(a0.args[0]) if args and a0.op == "dict" else []
        return raw("dict", tuple(its + [(C(k), v) for k, v in kwargs.items()]))
    if nm in ("all", "any"):
        it = I.iterate(a0)
        if it is not None:
            return (land if nm == "all" else lor)(*[I.truth(x, record=False) for x in it])
        return reduce_(nm, mkarr(I, a0))
    if nm == "map":
        it = [I.iterate(x) for x in args[1:]]
        if all(i is not None for i in it):
            return lst(*[I.call(a0, list(x), {}) for x in zip(*it)])
        if len(args) == 2 and a0.op in ("clo", "partial", "bmeth", "ext"):
            src = args[1]
            n_ = length(src)
            v = raw("vi", I.level, n_, (src,))
            I.level += 1
            try:
                r = I.call(a0, [index(src, (v,))], {})
            finally:
                I.level -= 1
            return raw("map", r, v, n_)
        return unk_("map")
    if nm == "getattr":
        if args[1].op == "c" and isinstance(args[1].args[0], str):
            k = args[1].args[0]
            if len(args) > 2:
                c = I.class_of(a0)
                if a0.op == "obj":
                    known = k in obj_fields(a0) or (c is not None and (c.find(k) is not None or any(k in getattr(q, "attrs", ()) for q in c.mro())))
                    return I.getattr(a0, k) if known else args[2]
                if c is None or not (c.find(k) is not None or k in c.all_fields()):
                    return nd.phi(raw("hasattr", a0, args[1]), I.getattr(a0, k), args[2])
            return I.getattr(a0, k)
        return unk_("getattr")
    if nm == "hasattr":
        if args[1].op == "c" and a0.op == "obj":
            k = args[1].args[0]
            c = I.class_of(a0)
            return C(k in obj_fields(a0) or (c is not None and c.find(k) is not None))
        return raw("hasattr", a0, args[1])
    if nm == "setattr":
        if a0.op == "mutobj" and args[1].op == "c":
            a0.args[0].fields[args[1].args[0]] = args[2]
        else:
            I.event("mutation", target=a0, what="setattr")
        return NONE
    if nm == "callable":
        return TRUE if a0.op in ("clo", "cls", "partial", "vmapped", "bmeth", "ext", "derivf") else raw("callable", a0)
    if nm in ("print", "noop"):
        return NONE
    if nm in ("str", "repr", "format"):
        return C("<str>")
    if nm == "slice":
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return I.mkslice(*a)
    if nm == "super":
        return raw("super", args[1], args[0].args[0]) if len(args) == 2 else unk_("super")
    if nm == "identity":
        return a0
    if nm == "divmod":
        return tup(I.binop(ast.FloorDiv, *args), I.binop(ast.Mod, *args))
    if nm == "next":
        it = I.iterate(a0)
        return it[0] if it else unk_("next")
    if nm == "property":
        return a0
    if nm.endswith(("Error", "Exception", "Warning")):
        return raw("exc", nm)
    if nm == "id":
        return raw("id", a0)
    return None


_FLOATY = {"lin", "mono", "f", "index", "pad", "reshape", "transpose", "expand_dims", "stack", "concat", "reduce", "matmul", "dot", "where", "nan_to_num", "maximum", "minimum"}


def _floaty(n, depth=12):
    """The value is certainly a real (non-integer) quantity."""
    if depth == 0 or not isinstance(n, N):
        return False
    if n.op == "sym":
        return n.args[1] in ("float", "arr", None) or (n.args[1] == "any" and shape(n) is not None)
    if n.op in ("lin", "mono"):
        return any(_floaty(k, depth - 1) for k, _ in n.args[-1])
    if n.op == "f":
        return n.args[0] in ("exp", "log", "sin", "cos", "tanh") or _floaty(n.args[1], depth - 1)
    if n.op == "index":
        return _floaty(n.args[0], depth - 1)
    if n.op == "reduce":
        return n.args[0] in ("sum", "mean", "max", "min") and _floaty(n.args[1], depth - 1)
    if n.op in ("pad", "reshape", "transpose", "expand_dims", "stack", "matmul", "dot", "nan_to_num"):
        return _floaty(n.args[0], depth - 1)
    if n.op == "where":
        return _floaty(n.args[1], depth - 1) or _floaty(n.args[2], depth - 1)
    return False


def cast(I, x, dt):
    """Conversion to another element type."""
    name = None
    if dt.op in ("ext", "mod"):
        name = str(dt.args[0]).rpartition(".")[2]
    elif dt.op == "c":
        name = str(dt.args[0])
    if name is None:
        return x
    if name.startswith(("int", "uint")):
        return apply1("trunc", x) if _floaty(x) else x
    if name.startswith("bool") and _floaty(x):
        return lnot(cmp("eq", x, ZERO))
    if name in ("float16", "bfloat16"):
        return apply1("halfprecision", x)
    return x


def _is_int(n):
    if n.op == "num":
        return n.args[0].denominator == 1
    if n.op == "sym":
        return n.args[1] == "int"
    if n.op == "lin":
        return n.args[0].denominator == 1 and all(c.denominator == 1 and _is_int(k) for k, c in n.args[1])
    if n.op == "mono":
        return all(_is_int(k) and e.op == "num" and e.args[0] > 0 and e.args[0].denominator == 1 for k, e in n.args[0])
    if n.op in ("pmax", "pmin"):
        return all(_is_int(k) for k in n.args)
    return n.op in ("len", "ceil", "floor", "floordiv")


def call(I, name, args, kwargs):
    args = list(args)
    if any(a is BOT for a in args):
        return BOT
    mod, _, fn = name.rpartition(".")
    r = None
    if mod == "builtins":
        r = builtin(I, fn, args, kwargs)
    elif mod in ("jax.numpy", "numpy"):
        if mod == "numpy":
            I.event("numpy", what=fn, args=tuple(args))
        r = jnp(I, fn, args, kwargs)
    elif mod == "math":
        r = math_(I, fn, args, kwargs)
        if fn in ("log", "log2", "log10") and isinstance(r, N):
            I.float_logs.add(r.id)
    elif mod in ("jax.numpy.linalg", "numpy.linalg", "jax.scipy.linalg"):
        r = linalg(I, fn, args, kwargs)
    elif mod == "jax.random":
        r = jrandom(I, fn, args, kwargs)
    elif mod in ("jax.lax",):
        r = lax(I, fn, args, kwargs)
    elif mod in ("jax.tree_util", "jax.tree"):
        r = tree(I, fn, args, kwargs)
    elif mod == "jax":
        r = jax_(I, fn, args, kwargs)
    elif mod == "equinox":
        r = eqx(I, fn, args, kwargs)
    elif mod == "jax.nn":
        if fn == "softmax":
            r = raw("softmax", mkarr(I, args[0]), args[1] if len(args) > 1 else kwargs.get("axis", C(-1)))
        elif fn in ("relu",):
            r = amax(args[0], ZERO)
    elif mod in ("jax.scipy.special", "scipy.special"):
        if fn in UNARY:
            r = apply1(UNARY[fn], args[0])
    elif mod == "functools":
        if fn == "partial":
            r = raw("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        elif fn == "wraps":
            r = raw("ext", "builtins.identity")
        elif fn == "reduce":
            it = I.iterate(args[1])
            if it is not None:
                acc = args[2] if len(args) > 2 else it.pop(0)
                for x in it:
                    acc = I.call(args[0], [acc, x], {})
                r = acc
    elif mod == "itertools":
        its = [I.iterate(a) for a in args]
        if fn == "product" and all(i is not None for i in its):
            import itertools
            rp = kwargs.get("repeat", ONE)
            if rp.op == "num":
                r = lst(*[tup(*x) for x in itertools.product(*its, repeat=int(rp.args[0]))])
        elif fn == "chain" and all(i is not None for i in its):
            r = lst(*[x for i in its for x in i])
    elif mod == "operator":
        OPS = {"add": ast.Add, "mul": ast.Mult, "sub": ast.Sub, "truediv": ast.Div, "matmul": ast.MatMult, "floordiv": ast.FloorDiv, "pow": ast.Pow, "mod": ast.Mod}
        if fn in OPS and len(args) == 2:
            r = I.binop(OPS[fn], *args)
        elif fn == "neg":
            r = neg(args[0])
        elif fn == "getitem":
            k = args[1]
            r = I.subscript(args[0], tuple(k.args) if k.op == "tuple" else (k,))
        elif fn == "attrgetter" or fn == "itemgetter":
            r = None
    elif mod == "warnings" and fn == "warn":
        I.event("warn", args=tuple(args))
        r = NONE
    elif mod in ("typing", "typing_extensions"):
        if fn == "cast":
            r = args[1]
        elif fn == "TypeVar":
            r = raw("ext", "typing.Any")
        elif fn in ("override", "final", "overload"):
            r = args[0]
    elif mod == "tqdm" and fn == "tqdm":
        r = args[0]
    elif name == "jax.Array.at":
        r = None
    if r is None:
        I.event("extcall", what=name)
        r = raw("extcall", name, tuple(args), tuple(sorted(kwargs.items())))
    return r


def math_(I, fn, args, kwargs):
    x = args[0]
    if fn in ("ceil", "floor", "trunc"):
        if x.id in I.log_differences:
            I.event("logfloor", node=x)
        return rounding("floor" if fn == "trunc" else fn, x)
    if fn == "log" and len(args) == 2:
        return distdiv(apply1("log", x), apply1("log", args[1]))
    if fn in UNARY:
        return apply1(UNARY[fn], x)
    if fn == "pow":
        return power(*args)
    if fn in ("prod",):
        it = I.iterate(x)
        return mul(*it) if it is not None else None
    return None


def jnp(I, fn, args, kwargs):
    a = [mkarr(I, x) if isinstance(x, N) and x.op not in ("tuple", "list", "slice") else x for x in args]
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype",)}
    if fn in UNARY and fn not in ("round",):
        return apply1(UNARY[fn], mkarr(I, a[0]))
    if fn in CMP:
        return cmp(CMP[fn], a[0], a[1])
    if fn in ("asarray", "array", "copy", "ascontiguousarray"):
        x = mkarr(I, args[0])
        nm_ = kwargs.get("ndmin")
        if nm_ is not None and nm_.op == "num" and rank(x) is not None:
            while rank(x) < int(nm_.args[0]):
                x = expand_dims(x, ZERO)
        dt = kwargs.get("dtype", args[1] if len(args) > 1 and fn != "copy" else NONE)
        if dt is not NONE:
            x = cast(I, x, dt)
        return x
    if fn in ("float32", "float64", "int32", "int64", "int8", "uint32"):
        return a[0] if a else None
    if fn == "add":
        return nary(I, add, args)
    if fn == "subtract":
        return nary(I, sub, args)
    if fn == "multiply":
        return nary(I, mul, args)
    if fn in ("divide", "true_divide"):
        return nary(I, div, args)
    if fn in ("power", "float_power"):
        return nary(I, power, args)
    if fn == "floor_divide":
        return nary(I, floordiv, args)
    if fn in ("mod", "remainder", "fmod"):
        return raw("mod", a[0], a[1])
    if fn == "maximum":
        return nary(I, amax, args)
    if fn == "minimum":
        return nary(I, amin, args)
    if fn == "clip":
        x, lo, hi = P(a, kw, "x", ("min", None), ("max", None))
        lo = kw.get("a_min", lo)
        hi = kw.get("a_max", hi)
        return clip(x, lo, hi)
    if fn in ("dot", "matmul", "vdot", "inner"):
        if fn == "inner" and rank(a[1]) == 2:
            return dot(a[0], transpose(a[1]))
        return dot(a[0], a[1])
    if fn == "outer":
        return mul(expand_dims(ravel(a[0]), ONE), expand_dims(ravel(a[1]), ZERO))
    if fn == "tensordot":
        x, y, ax = P(a, kw, "a", "b", ("axes", C(2)))
        if ax is ZERO:
            rx, ry = rank(x), rank(y)
            if rx is not None and ry is not None:
                for _ in range(ry):
                    x = expand_dims(x, C(rank(x)))
                for _ in range(rx):
                    y = expand_dims(y, ZERO)
                return mul(x, y)
        if ax is ONE and rank(x) is not None and rank(y) is not None and rank(x) <= 2 and rank(y) <= 2:
            return dot(x, y)
        if ax.op in ("tuple", "list") or ax.op == "num":
            return raw("tensordot", x, y, ax)
        return None
    if fn == "einsum":
        return einsum(I, args[0], [mkarr(I, x) for x in args[1:]])
    if fn in ("sum", "mean", "max", "min", "any", "all", "prod", "nansum", "nanmean", "nanmax", "nanmin", "median", "std", "var", "amax", "amin"):
        return reduction(I, {"amax": "max", "amin": "min"}.get(fn, fn), a, kw)
    if fn == "average":
        x, ax, w = P(a, kw, "a", ("axis", NONE), ("weights", NONE))
        if w is NONE:
            return reduction(I, "mean", [x, ax], {})
        return raw("average", x, axis_norm(x, ax), w)
    if fn in ("argmin", "argmax", "nanargmin", "nanargmax"):
        x, ax = P(a, kw, "a", ("axis", NONE))
        ax = axis_norm(x, ax)
        if rank(x) == 1 and ax is ZERO:
            ax = NONE
        v = nan_masked(x, -1 if fn.endswith("max") else 1)
        if v is not None:
            fn, x = "nanarg" + fn[-3:], v
        return raw("argsel", fn, x, ax)
    if fn == "argsort":
        return raw("argsort", a[0], *[x for x in a[1:]])
    if fn == "sort":
        return raw("sort", a[0])
    if fn == "where":
        if len(a) == 3:
            return where(a[0], a[1], a[2])
        return None
    if fn == "select":
        return None
    if fn == "isin":
        return raw("isin", a[0], a[1])
    if fn in ("logical_or", "bitwise_or"):
        return lor(*a)
    if fn in ("logical_and", "bitwise_and"):
        return land(*a)
    if fn in ("logical_not", "invert"):
        return lnot(a[0])
    if fn in ("zeros", "ones", "full", "empty"):
        d = dims(I, args[0] if args else kw["shape"])
        v = {"zeros": ZERO, "ones": ONE, "empty": ZERO}.get(fn)
        if v is None:
            v = mkarr(I, args[1] if len(args) > 1 else kw["fill_value"])
        if d is None:
            return raw("full_", args[0], v)
        return full(d, v)
    if fn in ("zeros_like", "ones_like", "full_like", "empty_like"):
        s = shape(a[0])
        if "shape" in kw:
            s = dims(I, kw["shape"])
        v = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": ZERO}.get(fn)
        if v is None:
            v = args[1] if len(args) > 1 else kw["fill_value"]
        if s is None:
            return raw("full_", raw("shapeof", a[0]), v)
        return full(s, v) if s else v
    if fn in ("eye", "identity"):
        n, m = P(args, kw, "N", ("M", NONE))
        return raw("eye", n, n if m is NONE else m)
    if fn == "arange":
        if len(args) == 1:
            return raw("arange", args[0])
        if len(args) == 2:
            if args[0] is ZERO:
                return raw("arange", args[1])
            return add(args[0], raw("arange", sub(args[1], args[0])))
        return None
    if fn == "reshape":
        o = kw.get("order", C("C"))
        shp = args[1] if len(args) == 2 else (tup(*args[1:]) if len(args) > 2 else kw.get("newshape", kw.get("shape")))
        return reshape(I, a[0], shp, o.args[0])
    if fn == "ravel":
        o = kw.get("order", C("C"))
        return ravel(a[0]) if o.args[0] == "C" else raw("reshape", a[0], (C(-1),), o.args[0])
    if fn == "squeeze":
        ax = args[1] if len(args) > 1 else kw.get("axis", NONE)
        return do_squeeze(a[0], ax)
    if fn == "expand_dims":
        ax = args[1] if len(args) > 1 else kw["axis"]
        if ax.op in ("tuple", "list"):
            x = a[0]
            for q in sorted(ax.args, key=lambda n: n.args[0]):
                x = expand_dims(x, q)
            return x
        return expand_dims(a[0], ax)
    if fn in ("atleast_1d", "atleast_2d"):
        return (atleast_1d if fn == "atleast_1d" else atleast_2d)(mkarr(I, a[0]))
    if fn == "atleast_3d":
        return None
    if fn in ("transpose", "permute_dims"):
        return transpose(a[0], args[1] if len(args) > 1 else kw.get("axes", NONE))
    if fn == "matrix_transpose":
        return transpose(a[0])
    if fn in ("swapaxes", "moveaxis"):
        r = rank(a[0])
        if r == 2 and {str(x) for x in (args[1], args[2])} <= {"0", "1", "-1", "-2"} and (int(args[1].args[0]) % 2) != (int(args[2].args[0]) % 2):
            return transpose(a[0])
        if r is not None and args[1].op == args[2].op == "num":
            p = list(range(r))
            i, j = int(args[1].args[0]) % r, int(args[2].args[0]) % r
            if fn == "swapaxes":
                p[i], p[j] = p[j], p[i]
            else:
                p.insert(j, p.pop(i))
            return transpose(a[0], tup(*[C(q) for q in p]))
        return None
    if fn == "broadcast_to":
        d = dims(I, args[1] if len(args) > 1 else kw["shape"])
        if d is None:
            return raw("broadcast_", a[0], args[1] if len(args) > 1 else kw["shape"])
        if shape(a[0]) == d:
            return a[0]
        if shape(a[0]) == () and a[0].op in ("num", "inf", "nan"):
            return full(d, a[0])
        return raw("broadcast", a[0], d)
    if fn in ("concatenate", "concat"):
        return concat(I, args[0], args[1] if len(args) > 1 else kw.get("axis", ZERO))
    if fn in ("hstack", "vstack", "stack", "column_stack"):
        xs = args[0]
        it = I.iterate(xs)
        if it is None:
            if fn == "stack" and xs.op == "map":
                return stack(*xs.args)
            return raw("extcall", "jax.numpy." + fn, tuple(args), tuple(sorted(kw.items())))
        it = [mkarr(I, x) for x in it]
        if fn == "stack":
            ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
            if ax is ZERO:
                return raw("vec", tuple(it))
            return concat(I, lst(*[expand_dims(x, ax) for x in it]), ax)
        if fn == "hstack":
            if any(rank(x) is None for x in it):
                return raw("extcall", "jax.numpy.hstack", tuple(args), ())
            return concat(I, lst(*[atleast_1d(x) for x in it]), ZERO if all((rank(x) or 0) <= 1 for x in it) else ONE)
        if fn == "vstack":
            return concat(I, lst(*[atleast_2d(x) for x in it]), ZERO)
        return concat(I, lst(*[expand_dims(x, ONE) if rank(x) == 1 else x for x in it]), ONE)
    if fn == "tile":
        r = dims(I, args[1] if len(args) > 1 else kw["reps"])
        if r is None:
            return None
        return raw("tile", a[0], r)
    if fn == "repeat":
        return raw("repeat", a[0], *args[1:], *[v for k, v in sorted(kw.items()) if k == "axis"])
    if fn == "pad":
        w = args[1] if len(args) > 1 else kw["pad_width"]
        mode = args[2] if len(args) > 2 else kw.get("mode", C("constant"))
        val = kw.get("constant_values", ZERO)
        if mode is not C("constant"):
            return None
        W = norm_widths(I, w, rank(a[0]))
        if W is None:
            return raw("extcall", "jax.numpy.pad", tuple(args), tuple(sorted(kw.items())))
        if all(p is ZERO and q is ZERO for p, q in W):
            return a[0]
        return raw("pad", a[0], W, val)
    if fn in ("triu_indices", "triu_indices_from", "tril_indices", "tril_indices_from"):
        if fn.endswith("_from"):
            sh = shape(a[0])
            if sh is None or len(sh) != 2 or sh[0] is not sh[1]:
                return None
            size = sh[0]
        else:
            size = args[0]
            if len(args) > 2 or "m" in kw:
                return None
        k = args[1] if len(args) > 1 else kw.get("k", ZERO)
        ln = raw("trilen", fn[:4], size, k)
        r = raw("tripos", fn[:4], size, k, 0), raw("tripos", fn[:4], size, k, 1)
        for x in r:
            set_shape(x, (ln,))
        return tup(*r)
    if fn in ("triu", "tril"):
        return raw(fn, a[0], args[1] if len(args) > 1 else kw.get("k", ZERO))
    if fn in ("diag", "diagonal"):
        if len(args) > 1 or kw:
            off, a1, a2 = (P(args[1:], kw, ("offset", ZERO), ("axis1", ZERO), ("axis2", ONE)) if fn == "diagonal"
                           else P(args[1:], kw, ("k", ZERO)) + [ZERO, ONE])
            r = rank(a[0])
            if off is not ZERO or r is None:
                return None
            if r == 2:
                return raw("diag", a[0])
            p, q = numval(a1), numval(a2)
            if p is None or q is None:
                return None
            p, q = int(p) % r, int(q) % r
            rest = [k for k in range(r) if k not in (p, q)]
            x = transpose(a[0], tup(*[C(k) for k in rest + [p, q]])) if rest + [p, q] != list(range(r)) else a[0]
            return raw("bdiag", x)
        return raw("diag", a[0])
    if fn == "trace":
        return reduce_("sum", raw("diag", a[0]), ZERO) if len(args) == 1 and not kw else None
    if fn == "fill_diagonal":
        return raw("filldiag", a[0], a[1])
    if fn == "shape":
        return array_attr(I, a[0], "shape")
    if fn == "ndim":
        return array_attr(I, a[0], "ndim")
    if fn == "size":
        return array_attr(I, a[0], "size")
    if fn == "nan_to_num":
        x, copy_, nan, pinf, ninf = P(a, kw, "x", ("copy", TRUE), ("nan", ZERO), ("posinf", NONE), ("neginf", NONE))
        return raw("nan_to_num", x, nan, pinf, ninf)
    if fn == "count_nonzero" and (len(a) == 1 or set(kw) <= {"axis", "keepdims"}):
        x, ax = P(a, kw, "a", ("axis", NONE))
        b = x if x.op in ("lt", "le", "eq", "not", "and", "or", "isin") else lnot(cmp("eq", x, ZERO))
        return reduction(I, "sum", [b, ax], {k: v for k, v in kw.items() if k != "axis"})
    if fn in ("flatnonzero",):
        x, = P(a, kw, "a")
        if kw.get("size", NONE) is NONE:
            I.event("dynshape", node=x, what=fn)
        return raw("flatnonzero", x, kw.get("size", NONE), kw.get("fill_value", NONE))
    if fn == "nonzero":
        x, = P(a, kw, "a")
        if rank(x) == 1:
            if kw.get("size", NONE) is NONE:
                I.event("dynshape", node=x, what=fn)
            return tup(raw("flatnonzero", x, kw.get("size", NONE), kw.get("fill_value", NONE)))
        return None
    if fn == "take":
        x, k, ax = P(a, kw, "a", "indices", ("axis", NONE))
        if ax is ZERO or (ax is NONE and rank(x) == 1):
            return index(x, (k,))
        if ax.op == "num" and ax.args[0] > 0:
            return index(x, (FULL,) * int(ax.args[0]) + (k,))
        return None
    if fn == "cumsum":
        return raw("cumsum", a[0], *args[1:])
    if fn == "roll":
        return raw("roll", a[0], *args[1:])
    if fn == "flip":
        if rank(a[0]) == 1 or (len(args) > 1 and args[1] is ZERO):
            return index(a[0], (raw("slice", NONE, NONE, C(-1)),))
        return None
    if fn == "iscomplexobj":
        return FALSE
    if fn in ("issubdtype", "result_type", "finfo", "iinfo", "dtype"):
        return raw("extcall", "jax.numpy." + fn, tuple(args), ())
    if fn == "vectorize":
        return None
    if fn == "setdiff1d":
        return raw("setdiff1d", a[0], a[1], *([kw["size"]] if "size" in kw else []))
    if fn == "array_split" or fn == "split":
        return raw("arrsplit", fn, a[0], *args[1:], *[v for k, v in sorted(kw.items())])
    if fn == "round":
        return raw("f", "round_", a[0])
    return None


def norm_widths(I, w, r):
    it = I.iterate(w)
    if it is None:
        if rank(w) == 0:
            return ((w, w),) * (r or 1)
        return None
    prs = []
    if all(I.iterate(x) is None for x in it):
        if len(it) == 2:
            prs = [(it[0], it[1])]
        elif len(it) == 1:
            prs = [(it[0], it[0])]
        else:
            return None
    else:
        for x in it:
            p = I.iterate(x)
            if p is None or len(p) not in (1, 2):
                return None
            prs.append((p[0], p[-1]))
    if r is not None and len(prs) == 1 and r > 1:
        prs = prs * r
    return tuple(prs)


def do_squeeze(x, ax):
    s = shape(x)
    if ax is NONE or s is None:
        return squeeze(x, ax)
    if ax.op == "num":
        i = int(ax.args[0]) % len(s)
        return index(x, (FULL,) * i + (ZERO,))
    return squeeze(x, ax)


def einsum(I, spec, xs):
    """Exact einsum: product of index-aligned operands summed over dropped labels."""
    if spec.op != "c" or not isinstance(spec.args[0], str) or "." in spec.args[0]:
        return None
    s = spec.args[0].replace(" ", "")
    lhs, _, rhs = s.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(xs):
        return None
    if "->" not in s:
        alll = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(alll) if alll.count(c) == 1))
    ext = {}
    for lab, x in zip(ins, xs):
        sh = shape(x)
        if sh is None or len(sh) != len(lab):
            return None
        for c, d in zip(lab, sh):
            if c not in ext or ext[c] is ONE:
                ext[c] = d
    L = I.level
    vs = {c: raw("vi", L + i, ext[c], ("es",)) for i, c in enumerate(rhs)}
    summed = [c for c in ext if c not in rhs]
    for i, c in enumerate(summed):
        vs[c] = raw("vi", L + len(rhs) + i, ext[c], ("es",))
    e = mul(*[index(x, tuple(vs[c] for c in lab)) if lab else x for lab, x in zip(ins, xs)])
    for c in summed:
        e = sumover(e, vs[c], ext[c])
    for c in reversed(rhs):
        e = stack(e, vs[c], ext[c])
    return e


def linalg(I, fn, args, kwargs):
    a = [mkarr(I, x) for x in args]
    if fn == "norm":
        x, o, ax = P(a, kwargs, "x", ("ord", NONE), ("axis", NONE))
        return norm(I, x, o, ax, kwargs.get("keepdims", FALSE))
    if fn == "solve":
        return raw("solve", a[0], a[1])
    if fn in ("inv", "pinv"):
        return raw("la_" + fn, a[0])
    if fn == "svd" and len(a) == 1 and kwargs.get("compute_uv", TRUE) is TRUE:
        full = kwargs.get("full_matrices", TRUE)
        if full in (TRUE, FALSE):
            return tup(*[raw("la_svd", a[0], full, C(i)) for i in range(3)])
    if fn == "lstsq" and len(a) >= 2:
        rc = kwargs.get("rcond", args[2] if len(args) > 2 else NONE)
        return tup(*[raw("la_lstsq", a[0], a[1], rc, C(i)) for i in range(4)])
    if fn == "qr" and len(a) == 1 and kwargs.get("mode", C("reduced")) is C("reduced"):
        return tup(raw("la_qr", a[0], C(0)), raw("la_qr", a[0], C(1)))
    if fn == "eigh" and len(a) == 1 and not kwargs:
        return tup(raw("la_eigh", a[0], C(0)), raw("la_eigh", a[0], C(1)))
    return raw("la", fn, tuple(a), tuple(sorted(kwargs.items())))


def jrandom(I, fn, args, kwargs):
    if fn in ("key", "PRNGKey"):
        n = raw("key", args[0])
        I.event("newkey", node=n, seed=args[0])
        return n
    if fn == "split":
        k, m = P(args, kwargs, "key", ("num", C(2)))
        n = raw("split", k, m)
        I.event("keyuse", what="split", key=k, node=n)
        return n
    if fn == "fold_in":
        n = raw("fold_in", args[0], args[1])
        I.event("keyuse", what="fold_in", key=args[0], node=n)
        return n
    if fn == "choice":
        key, a, shp, rep, p, ax = P(args, kwargs, "key", "a", ("shape", tup()), ("replace", TRUE), ("p", NONE), ("axis", ZERO))
        d = dims(I, shp)
        a = mkarr(I, a)
        if a.op == "arange":
            a = a.args[0]
        n = raw("choice", key, a, d if d is not None else (unk_("shape"),), rep, p)
        return draw_event(I, fn, key, n)
    if fn == "permutation":
        x = mkarr(I, args[1])
        if x.op == "arange":
            x = x.args[0]
        return draw_event(I, fn, args[0], raw("permutation", args[0], x))
    if fn == "randint":
        key, shp, lo, hi = P(args, kwargs, "key", "shape", "minval", "maxval")
        return draw_event(I, fn, key, raw("draw", fn, key, dims(I, shp) or (), lo, hi))
    if fn == "key_data" or fn == "wrap_key_data" or fn == "clone":
        return args[0]
    key, shp = P(args, kwargs, "key", ("shape", tup()))
    if fn in ("normal", "uniform", "rademacher", "gumbel", "exponential", "bernoulli", "categorical", "laplace",
              "beta", "gamma", "multivariate_normal", "bits", "poisson", "truncated_normal"):
        rest = args[2:]
        ks = [v for k, v in sorted(kwargs.items()) if k not in ("key", "shape", "dtype")]
        if fn == "categorical":
            return draw_event(I, fn, args[0], raw("extcall", "jax.random.categorical", tuple(args), tuple(sorted(kwargs.items()))))
        if fn == "bernoulli":
            return draw_event(I, fn, args[0], raw("draw", fn, key, dims(I, kwargs.get("shape", args[2] if len(args) > 2 else tup())) or (), args[1] if len(args) > 1 else kwargs.get("p", C(Fraction(1, 2)))))
        return draw_event(I, fn, key, raw("draw", fn, key, dims(I, shp) or (), *rest, *ks))
    return None


def lax(I, fn, args, kwargs):
    if fn == "fori_loop":
        lo, hi, body, init = P(args, kwargs, "lower", "upper", "body_fun", "init_val")
        return I.fori(lo, hi, body, init)
    if fn == "scan":
        f, init, xs, ln = P(args, kwargs, "f", "init", ("xs", NONE), ("length", NONE))
        return I.scan(f, init, xs, ln)
    if fn == "while_loop":
        c, b, init = P(args, kwargs, "cond_fun", "body_fun", "init_val")
        return I.while_loop(c, b, init)
    if fn == "cond":
        p = args[0]
        tf, ff = (args[1:3] if len(args) >= 3 else (kwargs["true_fun"], kwargs["false_fun"]))
        ops_ = args[3:]
        if "operand" in kwargs:
            ops_ = [kwargs["operand"]]
        if p in (TRUE, FALSE):
            return I.call(tf if p is TRUE else ff, ops_, {})
        I.path.append(p)
        a = I.call(tf, ops_, {})
        I.path[-1] = lnot(p)
        b = I.call(ff, ops_, {})
        I.path.pop()
        return phi(p, a, b)
    if fn == "select":
        return where(*args)
    if fn == "map":
        return I.vmap(args[0], ZERO, ZERO, args[1:2], {})
    if fn in ("stop_gradient",):
        return args[0]
    if fn in UNARY:
        return apply1(UNARY[fn], args[0])
    if fn in ("add", "sub", "mul", "div", "max", "min", "pow"):
        return {"add": add, "sub": sub, "mul": mul, "div": div, "max": amax, "min": amin, "pow": power}[fn](*args)
    if fn == "rsqrt":
        return power(args[0], C(Fraction(-1, 2)))
    if fn == "dynamic_index_in_dim":
        return None
    return None


def tree(I, fn, args, kwargs):
    if fn in ("tree_map", "map"):
        return I.tree_map(args[0], list(args[1:]), kwargs.get("is_leaf"))
    if fn in ("tree_leaves", "leaves"):
        t = args[0]
        if t.op == "phi":
            return phi(t.args[0], tree(I, fn, [t.args[1]], kwargs), tree(I, fn, [t.args[2]], kwargs))
        il = kwargs.get("is_leaf", args[1] if len(args) > 1 else None)
        if il is not None and il is not NONE:
            return lst(*leaves_is_leaf(I, t, il))
        return lst(*I.flatten(t)[0])
    if fn in ("tree_flatten", "flatten"):
        l, rb = I.flatten(args[0])
        return tup(lst(*l), raw("treedef", args[0]))
    if fn in ("tree_structure", "structure"):
        return raw("treedef", args[0])
    if fn in ("tree_unflatten", "unflatten"):
        td, ls = args
        it = I.iterate(ls)
        if td.op == "treedef" and it is not None:
            l, rb = I.flatten(td.args[0])
            if len(l) == len(it):
                return rb(it)
        return None
    if fn in ("tree_reduce", "reduce"):
        it = I.flatten(args[1])[0]
        acc = args[2] if len(args) > 2 else it.pop(0)
        for x in it:
            acc = I.call(args[0], [acc, x], {})
        return acc
    if fn in ("tree_all", "all"):
        return land(*[I.truth(x, False) for x in I.flatten(args[0])[0]])
    if fn == "Partial":
        return raw("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    return None


def leaves_is_leaf(I, t, il):
    if I.truth(I.call(il, [t], {}), record=False) is TRUE:
        return [t]
    if t.op in ("tuple", "list"):
        return [l for x in t.args for l in leaves_is_leaf(I, x, il)]
    if t.op == "obj":
        return [l for _, x in t.args[1] for l in leaves_is_leaf(I, x, il)]
    if t is NONE:
        return []
    return [t]


def jax_(I, fn, args, kwargs):
    if fn == "vmap":
        f, ia, oa = P(args, kwargs, "fun", ("in_axes", ZERO), ("out_axes", ZERO))
        if f is None:
            return raw("partial", raw("ext", "jax.vmap"), (), tuple(sorted(kwargs.items())))
        return raw("vmapped", f, ia, oa)
    if fn in ("jit", "checkpoint", "remat", "named_call"):
        if not args:
            return raw("ext", "builtins.identity")
        return args[0]
    if fn in ("grad", "jacfwd", "jacrev", "value_and_grad", "hessian"):
        f, an = P(args, kwargs, "fun", ("argnums", ZERO))
        k = "jac" if fn in ("jacfwd", "jacrev") else fn
        return raw("derivf", k, f, an)
    if fn == "jvp":
        f, pr, ta = P(args, kwargs, "fun", "primals", "tangents")
        prs, tas = I.iterate(pr), I.iterate(ta)
        if prs is None or tas is None:
            return tup(unk_("jvp"), unk_("jvp"))
        return I.jvp(f, prs, tas)
    if fn in ("block_until_ready", "device_put", "device_get"):
        return args[0]
    if fn == "pure_callback":
        f, sh = args[0], args[1]
        d = None
        if sh.op == "extcall" and sh.args[0] == "jax.ShapeDtypeStruct":
            d = dims(I, sh.args[1][0]) if sh.args[1] else None
        I.event("callback", fn=f, args=tuple(args[2:]))
        n0 = len(I.events)
        r = I.call(f, list(args[2:]), {})
        del I.events[n0:]               # host code: not part of the traced program
        if isinstance(r, N) and d is not None and shape(r) is not None and tuple(shape(r)) == tuple(d):
            return r
        return raw("callback", r, d if d is not None else (unk_("shape"),))
    if fn == "eval_shape":
        return None
    if fn == "tree_map":
        return tree(I, "tree_map", args, kwargs)
    if fn == "tree_leaves":
        return tree(I, "tree_leaves", args, kwargs)
    return None


def eqx(I, fn, args, kwargs):
    if fn == "tree_at":
        w, t, r = P(args, kwargs, "where", "pytree", ("replace", None))
        if r is None:
            rf = kwargs.get("replace_fn")
            if rf is None:
                return None
            cur = I.call(w, [t], {})
            r = I.call(rf, [cur], {}) if cur.op not in ("tuple", "list") else raw(cur.op, *[I.call(rf, [c], {}) for c in cur.args])
        return I.tree_at(w, t, r)
    if fn in ("filter_jit", "filter_checkpoint"):
        return args[0] if args else raw("ext", "builtins.identity")
    if fn == "filter_vmap":
        f, = P(args, kwargs, "fun")
        if f is None:
            return raw("partial", raw("ext", "equinox.filter_vmap"), (), tuple(sorted(kwargs.items())))
        ia = kwargs.get("in_axes", ZERO)
        return raw("vmapped", f, ia, kwargs.get("out_axes", ZERO))
    if fn in ("filter_grad", "filter_value_and_grad"):
        return raw("derivf", "grad" if fn == "filter_grad" else "value_and_grad", args[0], ZERO)
    if fn in ("is_array", "is_inexact_array", "is_array_like"):
        x = args[0]
        if x.op in ("num", "c", "tuple", "list", "obj", "clo", "cls", "ext"):
            return C(fn == "is_array_like" and x.op == "num")
        if x.op == "sym" and x.args[1] in ("int", "float", "bool"):
            return C(fn == "is_array_like")
        if shape(x) is not None:
            return TRUE
        return raw("isarr", x)
    if fn == "partition":
        t, f = P(args, kwargs, "pytree", "filter_spec")
        dec = []

        def decide(l, i):
            r = I.truth(I.call(f, [l], {}), record=False)
            dec.append(r)
            return (l if r is TRUE else NONE) if i == 0 else (NONE if r is TRUE else l)
        if t.op in ("obj", "tuple", "list") or shape(t) is not None or t.op == "num":
            leaves, rb = I.flatten(t)
            one = rb([decide(l, 0) for l in leaves])
            two = rb([decide(l, 1) for l in leaves])
            if all(d in (TRUE, FALSE) for d in dec):
                return tup(one, two)
        return tup(raw("part", t, f, 0), raw("part", t, f, 1))
    if fn == "combine":
        a, b = args[:2]
        return combine(a, b)
    if fn == "filter":
        return raw("part", args[0], args[1], 0)
    if fn == "error_if":
        I.event("errorif", node=args[1])
        return args[0]
    return None


def combine(a, b):
    if a is NONE:
        return b
    if b is NONE:
        return a
    if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args):
        return raw(a.op, *[combine(x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == "obj" and a.args[0] == b.args[0]:
        return obj(a.args[0], [(k, combine(v, obj_fields(b)[k])) for k, v in a.args[1]])
    if a.op == "part" and b.op == "part" and a.args[0] is b.args[0]:
        return a.args[0]
    if a.op in ("part", "obj") or b.op in ("part", "obj"):
        return raw("combine", a, b)
    return a


def at_update(I, x, keys, method, args):
    keys = tuple(mkarr(I, k) if k.op in ("list",) else k for k in keys)
    if method == "get":
        return index(x, keys)
    v = I.arr(mkarr(I, args[0])) if args else NONE
    if x is BOT or v is BOT:
        return BOT
    if method in ("set", "add", "mul", "multiply", "min", "max", "subtract", "divide", "power"):
        m = {"multiply": "mul"}.get(method, method)
        if m == "subtract":
            m, v = "add", neg(v)
        if m == "divide":
            m, v = "mul", power(v, C(-1))
        return scatter(m, x, keys, v)
    return unk_("at." + method)


def array_method(I, recv, name, args, kwargs):
    if recv.op == "dict":
        if name == "items":
            return lst(*[tup(k, v) for k, v in recv.args[0]])
        if name == "keys":
            return lst(*[k for k, _ in recv.args[0]])
        if name == "values":
            return lst(*[v for _, v in recv.args[0]])
        if name == "get":
            for k, v in recv.args[0]:
                if k is args[0]:
                    return v
            return args[1] if len(args) > 1 else NONE
        if name in ("update", "setdefault", "pop"):
            I.event("mutation", target=recv, what="dict." + name)
        return None
    if recv.op == "c":
        return C("<str>") if name in ("format", "lower", "upper", "join", "strip", "replace") else None
    if recv.op in ("list", "tuple"):
        if name in ("append", "extend", "pop", "insert", "sort", "reverse", "remove", "clear"):
            I.event("mutation", target=recv, what="list." + name)
        return None
    if name in ("sum", "mean", "max", "min", "any", "all", "prod", "std", "var"):
        return jnp(I, name, [recv] + list(args), kwargs)
    if name == "reshape":
        shp = args[0] if len(args) == 1 else tup(*args)
        return reshape(I, recv, shp, kwargs.get("order", C("C")).args[0])
    if name in ("ravel", "flatten"):
        o = kwargs.get("order", args[0] if args else C("C"))
        return ravel(recv) if o.args[0] == "C" else raw("reshape", recv, (C(-1),), o.args[0])
    if name == "astype" and args:
        return cast(I, recv, args[0])
    if name in ("astype", "copy", "block_until_ready", "conj", "view", "__array__"):
        return recv
    if name == "transpose":
        return transpose(recv, NONE if not args else (args[0] if args[0].op == "tuple" else tup(*args)))
    if name == "bit_length" and recv.op == "num":
        return C(int(recv.args[0]).bit_length())
    if name in ("item", "tolist", "__float__", "__int__", "__bool__"):
        I.event("concretise", node=recv, what=name)
        return recv if name == "item" else raw("extcall", name, (recv,), ())
    if name in ("dot", "squeeze", "argmin", "argmax", "argsort", "take", "clip", "round", "swapaxes", "diagonal", "trace", "cumsum", "sort", "repeat", "nonzero"):
        r = jnp(I, name, [recv] + list(args), kwargs)
        return r
    if name == "__len__":
        return length(recv)
    return None


NONARRAY = ("typeof", "tuple", "list", "obj", "clo", "cls", "ext", "mod", "dict", "c", "extobj", "part", "exc", "treedef", "partial")      # never arrays


def osqp(I, solver, args, kwargs):
    """jaxopt OSQP().run(...): minimise x'Qx/2 + c'x subject to Ax = b, Gx <= h."""
    _, obj_, eq, ineq = P(args, kwargs, ("init_params", NONE), ("params_obj", NONE), ("params_eq", NONE), ("params_ineq", NONE))
    parts = []
    for t in (obj_, eq, ineq):
        if t.op in ("tuple", "list") and len(t.args) == 2:
            parts += [mkarr(I, x) for x in t.args]
        elif t is NONE:
            parts += [NONE, NONE]
        else:
            return None
    r = raw("qp", *parts, tup(*[tup(C(k), v) for k, v in solver.args[2]]))
    x = raw("qp_primal", r)
    s = shape(parts[1]) if parts[1] is not NONE else None
    if s is not None:
        set_shape(x, s)
    return r


TREES = ("sklearn.neighbors.KDTree", "sklearn.neighbors.BallTree")


def tree_arrays(I, t):
    """(data, indices, node data, node bounds) of a scikit-learn binary tree."""
    name, args, kw = t.args[0], list(t.args[1]), dict(t.args[2])
    if len(args) > 2 or set(kw) - {"X", "leaf_size", "sample_weight"}:
        return None
    x, leaf = P(args, kw, ("X", None), ("leaf_size", C(40)))
    s = shape(x) if x is not None else None
    if not s:
        return None
    order = raw("treeorder", name, leaf, mkarr(I, x), kw.get("sample_weight", NONE))
    set_shape(order, (s[0],))
    return tup(x, order, unk_("tree nodes"), unk_("tree bounds"))


def array_attr(I, n, name):
    if n.op == "qp":
        return n if name == "params" else (raw("qp_primal", n) if name == "primal" else raw("attr", n, name))
    if n.op == "num":
        if name == "shape":
            return tup()
        if name == "ndim":
            return ZERO
    if n.op in NONARRAY:
        if n.op == "extcall" or n.op == "extobj":
            return None
        return None
    if name == "T" or name == "mT":
        return transpose(n)
    if name == "shape":
        s = shape(n)
        if s is not None:
            return tup(*s)
        return raw("shapeof", n)
    if name == "ndim":
        r = rank(n)
        return C(r) if r is not None else raw("ndimof", n)
    if name == "size":
        s = shape(n)
        return (mul(*s) if s else ONE) if s is not None else raw("sizeof", n)
    if name == "dtype":
        return raw("dtypeof", n)
    if name == "at":
        return raw("at", n)
    if name == "real":
        return n
    return None
