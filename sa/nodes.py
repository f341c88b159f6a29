"""Hash-consed value-graph nodes with eager algebraic normalisation.

Every value the abstract interpreter manipulates is an interned ``N``; two
computations have the same node iff they were normalised to the same term (global
value numbering).  Constructors (``add``, ``mul``, ``index`` ...) normalise; ``mk``
re-dispatches to them so substitution re-normalises.
"""
from fractions import Fraction

_table = {}
_counter = [0]
CUR_LOC = [None]          # (file, line, qualname) of the statement being interpreted
LOCS = {}                 # node id -> first creation location
FACTS_LE = []             # list of (a, b): a <= b known
NONNEG = set()            # ids of nodes known >= 0 (dims)
SHAPES = {}               # node id -> tuple of dim nodes, or None


class N:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def _key(args):
    return tuple(
        a.id if isinstance(a, N) else (_key(a) if isinstance(a, tuple) else (type(a).__name__, a))
        for a in args
    )


def raw(op, *args):
    """Intern a node without normalisation."""
    key = (op, tuple(
        ("n", a.id) if isinstance(a, N)
        else (("t",) + _tk(a) if isinstance(a, tuple) else (type(a).__name__, a))
        for a in args))
    n = _table.get(key)
    if n is None:
        n = N()
        n.op, n.args = op, args
        _counter[0] += 1
        n.id = _counter[0]
        _table[key] = n
        if CUR_LOC[0] is not None:
            LOCS[n.id] = CUR_LOC[0]
    return n


_BYID = {}


def by_id(i):
    if len(_BYID) < len(_table):
        for n in _table.values():
            _BYID[n.id] = n
    return _BYID.get(i)


def _tk(t):
    return tuple(
        ("n", a.id) if isinstance(a, N)
        else (("t",) + _tk(a) if isinstance(a, tuple) else (type(a).__name__, a))
        for a in t)


# ---------------------------------------------------------------- constants
def C(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return raw("c", v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else mul(C(-1), INF)
        v = Fraction(repr(v))
    if isinstance(v, (int, Fraction)):
        f = Fraction(v)
        return raw("num", f)
    return raw("c", repr(v))


def sym(name, kind="arr", *extra):
    return raw("sym", name, kind, *extra)


INF = raw("inf")
NAN = raw("nan")
NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)
BOT = raw("bot")          # unreachable / bounded recursion bottom


def is_num(n):
    return n.op == "num"


def numval(n):
    return n.args[0] if n.op == "num" else None


def is_const(n):
    return n.op in ("num", "c")


def cval(n):
    """Python value of a constant node (ints for integral numbers)."""
    if n.op == "num":
        f = n.args[0]
        return int(f) if f.denominator == 1 else f
    return n.args[0]


# ---------------------------------------------------------------- linear forms
def _as_lin(n):
    if n.op == "num":
        return n.args[0], {}
    if n.op == "lin":
        return n.args[0], dict(n.args[1])
    if n.op == "c" and isinstance(n.args[0], bool):
        return Fraction(int(n.args[0])), {}
    return Fraction(0), {n: Fraction(1)}


def _from_lin(const, terms):
    terms = {k: v for k, v in terms.items() if v != 0}
    if not terms:
        return raw("num", Fraction(const))
    # push a lone max/min atom outwards (dimension arithmetic)
    mm = [k for k in terms if k.op in ("pmax", "pmin")]
    if len(mm) == 1 and abs(terms[mm[0]]) == 1 and (len(terms) > 1 or const != 0 or terms[mm[0]] == -1):
        k = mm[0]
        c = terms.pop(k)
        op = k.op
        if c == -1:
            op = "pmin" if op == "pmax" else "pmax"
        rest = _from_lin(const, terms)
        return (pmax if op == "pmax" else pmin)(*[add(mul(raw("num", c), a), rest) for a in k.args])
    if const == 0 and len(terms) == 1:
        (k, v), = terms.items()
        if v == 1:
            return k
    return raw("lin", Fraction(const), tuple(sorted(terms.items(), key=lambda kv: kv[0].id)))


def add(*xs):
    const, terms = Fraction(0), {}
    for x in xs:
        if x is BOT:
            return BOT
        if x.op in ("tuple", "list"):
            pass
        c, t = _as_lin(x)
        const += c
        for k, v in t.items():
            terms[k] = terms.get(k, 0) + v
    return _keep_shape(_from_lin(const, terms), xs)


def _keep_shape(r, xs):
    """Constant folding must not lose the shape of the operands."""
    if r.op != "num":
        return r
    ss = [shape(x) for x in xs if x.op != "num"]
    ss = [q for q in ss if q]
    if not ss:
        return r
    b = ss[0]
    if len(ss) > 1:
        from .shapes import bcast
        b = bcast(*ss)
        if b is None:
            b = max(ss, key=len)
    return raw("full", tuple(b), r)


def neg(x):
    return mul(raw("num", Fraction(-1)), x)


def sub(a, b):
    return add(a, neg(b))


def _content(const, terms):
    """Signed content making the lowest-id coefficient +1-normalised primitive."""
    first = min(terms, key=lambda k: k.id)
    coefs = [abs(v) for v in terms.values()] + ([abs(const)] if const else [])
    from math import gcd
    num = 0
    den = 1
    for c in coefs:
        num = gcd(num, c.numerator * 1)
    for c in coefs:
        den = den * c.denominator // gcd(den, c.denominator)
    # gcd of fractions = gcd(numerators)/lcm(denominators) after common scaling
    scaled = [int(c * den) for c in coefs]
    g = 0
    for s in scaled:
        g = gcd(g, s)
    f = Fraction(g, den)
    return f if terms[first] > 0 else -f


def _as_mono(n):
    """coef, {base: exponent node}"""
    if n.op == "num":
        return n.args[0], {}
    if n.op == "mono":
        return Fraction(1), dict(n.args[0])
    if n.op == "lin":
        const, terms = n.args[0], dict(n.args[1])
        if const == 0 and len(terms) == 1:
            (k, v), = terms.items()
            c, m = _as_mono(k)
            return v * c, m
        f = _content(const, terms)
        if f != 1:
            prim = raw("lin", const / f, tuple((k, v / f) for k, v in n.args[1]))
            return f, {prim: ONE}
        return Fraction(1), {n: ONE}
    if n.op == "c" and isinstance(n.args[0], bool):
        return Fraction(int(n.args[0])), {}
    return Fraction(1), {n: ONE}


def _from_mono(coef, m):
    m = {k: e for k, e in m.items() if e is not ZERO}
    if coef == 0:
        return ZERO
    if not m:
        return raw("num", Fraction(coef))
    if len(m) == 1:
        (k, e), = m.items()
        base = k if e is ONE else raw("mono", ((k, e),))
        if e is ONE and k.op == "lin":
            return _from_lin(k.args[0] * coef, {a: v * coef for a, v in k.args[1]})
    else:
        base = raw("mono", tuple(sorted(m.items(), key=lambda kv: kv[0].id)))
    if coef == 1:
        return base
    return _from_lin(0, {base: Fraction(coef)})


def mul(*xs):
    coef, m = Fraction(1), {}
    for x in xs:
        if x is BOT:
            return BOT
        c, d = _as_mono(x)
        coef *= c
        for k, e in d.items():
            m[k] = add(m[k], e) if k in m else e
    # a base whose exponent became 1 again may itself be a product (sqrt(x*y)**2)
    for k in list(m):
        if k.op in ("mono",) and m[k].op == "num" and m[k].args[0].denominator == 1:
            e = m.pop(k)
            c, d = _as_mono(k)
            for b, f in d.items():
                f = mul(f, e)
                m[b] = add(m[b], f) if b in m else f
    return _keep_shape(_from_mono(coef, m), xs)


def power(a, e):
    if a is BOT or e is BOT:
        return BOT
    if e is ZERO:
        return _keep_shape(ONE, (a,))
    if e is ONE:
        return a
    if a.op == "num" and e.op == "num":
        b, x = a.args[0], e.args[0]
        if x.denominator == 1 and abs(x) < 64 and not (b == 0 and x < 0):
            return raw("num", b ** int(x))
        if x.denominator == 2 and b > 0:
            import math
            num, den = math.isqrt(b.numerator), math.isqrt(b.denominator)
            if num * num == b.numerator and den * den == b.denominator:
                return raw("num", Fraction(num, den) ** int(x * 2))
    if e.op == "num" and e.args[0].denominator == 1:
        c, m = _as_mono(a)
        if c == 0:
            return raw("mono", ((a, e),))
        return _from_mono(c ** int(e.args[0]), {k: mul(x, e) for k, x in m.items()})
    c, m = _as_mono(a)
    if c > 0 and len(m) == 1 and c == 1:
        (k, x), = m.items()
        # (b**x)**e with fractional/symbolic e: combine only if x is not an even integer
        if x is ONE or (x.op == "num" and x.args[0].denominator != 1):
            return _from_mono(Fraction(1), {k: mul(x, e)})
        if x.op != "num" and e.op == "num":
            return _from_mono(Fraction(1), {k: mul(x, e)})
    return raw("mono", ((a, e),))


def div(a, b):
    if b is ZERO:
        return raw("mono", ((a, ONE), (b, C(-1)))) if a is not b else NAN
    return mul(a, power(b, raw("num", Fraction(-1))))


# ---------------------------------------------------------------- python-scalar max/min
def provable_le(a, b, depth=0):
    if a is b:
        return True
    d = sub(b, a) if not (a.op in ("pmax", "pmin") or b.op in ("pmax", "pmin")) else None
    if d is not None:
        if nonneg(d):
            return True
    if depth > 3:
        return False
    if b.op == "pmax" and any(provable_le(a, x, depth + 1) for x in b.args):
        return True
    if a.op == "pmin" and any(provable_le(x, b, depth + 1) for x in a.args):
        return True
    if a.op == "pmax":
        return all(provable_le(x, b, depth + 1) for x in a.args)
    if b.op == "pmin":
        return all(provable_le(a, x, depth + 1) for x in b.args)
    for (p, q) in FACTS_LE:
        # a <= p <= q <= b
        if (a is p or nonneg(sub(p, a))) and (q is b or nonneg(sub(b, q))):
            return True
    return False


def nonneg(n):
    if n.op == "num":
        return n.args[0] >= 0
    if n.id in NONNEG:
        return True
    if n.op == "lin":
        return n.args[0] >= 0 and all(v > 0 and nonneg(k) for k, v in n.args[1])
    if n.op == "mono":
        return all(nonneg(k) for k, e in n.args[0])
    if n.op == "pmax":
        return any(nonneg(a) for a in n.args)
    if n.op == "pmin":
        return all(nonneg(a) for a in n.args)
    if n.op == "floordiv":
        return nonneg(n.args[0]) and nonneg(n.args[1])
    if n.op in ("ceil", "floor"):
        return nonneg(n.args[0])
    if n.op in ("len", "dimof"):
        return True
    return False


def _mm(op, args):
    flat = []
    for a in args:
        if a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    flat = sorted(set(flat), key=lambda n: n.id)
    keep = []
    for a in flat:
        dom = False
        for b in flat:
            if a is b:
                continue
            le = provable_le(a, b) if op == "pmax" else provable_le(b, a)
            if le:
                back = provable_le(b, a) if op == "pmax" else provable_le(a, b)
                if not back or b.id < a.id:
                    dom = True
                    break
        if not dom:
            keep.append(a)
    nums = [a for a in keep if a.op == "num"]
    if len(nums) > 1:
        best = (max if op == "pmax" else min)(nums, key=lambda n: n.args[0])
        keep = [a for a in keep if a.op != "num"] + [best]
        keep.sort(key=lambda n: n.id)
    if len(keep) == 1:
        return keep[0]
    return raw(op, *keep)


def pmax(*args):
    return _mm("pmax", args)


def pmin(*args):
    return _mm("pmin", args)


# ---------------------------------------------------------------- booleans
def cmp(op, a, b):
    """op in lt le eq ne gt ge"""
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    if op == "ne":
        return lnot(cmp("eq", a, b))
    if a is BOT or b is BOT:
        return BOT
    if op == "eq":
        if a is b and a is not NAN:
            return TRUE
        if is_const(a) and is_const(b):
            return C(a is b)
        if a.op in STRUCT and b.op in STRUCT and a.op == b.op == "tuple":
            if len(a.args) != len(b.args):
                return FALSE
            return land(*[cmp("eq", x, y) for x, y in zip(a.args, b.args)])
        if (a.op in STRUCT) != (b.op in STRUCT) and (is_const(a) or is_const(b)):
            return FALSE
        if a.op == "obj" and b.op == "obj":
            if a.args[0] != b.args[0] or [k for k, _ in a.args[1]] != [k for k, _ in b.args[1]]:
                return FALSE
            return land(*[cmp("eq", x, y) for (_, x), (_, y) in zip(a.args[1], b.args[1])])
        for x, y in ((a, b), (b, a)):
            # an opaque instance is not assumed to coincide with a constructed one
            if x.op == "sym" and not isinstance(x.args[1], str) and y.op == "obj":
                return FALSE
        d = sub(a, b) if _numeric(a) and _numeric(b) else None
        if d is not None and d.op == "num":
            return C(d.args[0] == 0)
        x, y = sorted((a, b), key=lambda n: n.id)
        return raw("eq", x, y)
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        return C(x < y if op == "lt" else x <= y)
    d = sub(b, a) if _numeric(a) and _numeric(b) else None
    if d is not None and d.op == "num":
        return C(d.args[0] > 0 if op == "lt" else d.args[0] >= 0)
    if op == "le" and provable_le(a, b):
        return TRUE
    if FACTS_LE and not _has_array(a) and not _has_array(b) and _numeric(a) and _numeric(b):
        if op == "lt" and provable_le(add(a, ONE), b):
            return TRUE
        if op == "le" and provable_le(add(b, ONE), a):
            return FALSE
    if op == "lt" and provable_le(b, a) and not _has_array(a) and not _has_array(b):
        return FALSE
    return raw(op, a, b)


def _has_array(n):
    s = shape(n)
    return s is not None and s != ()


STRUCT = ("tuple", "list", "obj", "clo", "cls", "dict")


def _numeric(n):
    return n.op not in ("c", "tuple", "list", "obj", "clo", "cls", "dict", "bot", "nan", "ext", "mod")


def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a is BOT:
        return BOT
    if a.op == "not":
        return a.args[0]
    if a.op == "lt" and not _maybe_nan(a):
        return cmp("le", a.args[1], a.args[0])
    if a.op == "le" and not _maybe_nan(a):
        return cmp("lt", a.args[1], a.args[0])
    if a.op == "and":
        return lor(*[lnot(x) for x in a.args])
    if a.op == "or":
        return land(*[lnot(x) for x in a.args])
    return raw("not", a)


def _maybe_nan(a):
    return False


def _assoc(op, xs, unit, zero):
    flat = []
    for x in xs:
        if x is BOT:
            return BOT
        if x.op == op:
            flat.extend(x.args)
        elif x is unit:
            continue
        elif x is zero:
            return zero
        else:
            flat.append(x)
    flat = sorted(set(flat), key=lambda n: n.id)
    s = set(flat)
    for x in flat:
        if lnot(x) in s:
            return zero
    if not flat:
        return unit
    if len(flat) == 1:
        return flat[0]
    return raw(op, *flat)


def land(*xs):
    return _assoc("and", xs, TRUE, FALSE)


def lor(*xs):
    return _assoc("or", xs, FALSE, TRUE)


# ---------------------------------------------------------------- phi (python-level select)
def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "le":       # canonical polarity for order comparisons: use lt
        return phi(raw("lt", c.args[1], c.args[0]), b, a)
    if a.op == b.op == "tuple" and len(a.args) == len(b.args):
        return raw("tuple", *[phi(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == "list" and len(a.args) == len(b.args):
        return raw("list", *[phi(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == "obj" and a.args[0] == b.args[0]:
        fa, fb = dict(a.args[1]), dict(b.args[1])
        if fa.keys() == fb.keys():
            return raw("obj", a.args[0], tuple((k, phi(c, fa[k], fb[k])) for k in fa))
    # nested same-condition collapse
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    return raw("phi", c, a, b)


def _assume(n, c, val):
    while n.op == "phi" and n.args[0] is c:
        n = n.args[1] if val else n.args[2]
    return n


# ---------------------------------------------------------------- shapes
def set_shape(n, s):
    SHAPES[n.id] = s
    return n


def shape(n):
    if n.id in SHAPES:
        return SHAPES[n.id]
    from . import shapes
    SHAPES[n.id] = None
    s = shapes.infer(n)
    SHAPES[n.id] = s
    return s


# ---------------------------------------------------------------- traversal
def children(n):
    out = []

    def rec(a):
        if isinstance(a, N):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    for a in n.args:
        rec(a)
    return out


def walk(*roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(children(n))


_dep_cache = {}
LEAF = ("sym", "iv", "lv", "vi", "dv")


def bound(n):
    """Variables bound by node n."""
    if n.op in ("stack", "sumover"):
        return (n.args[1],)
    if n.op == "loopout":
        return (n.args[2],) + tuple(c[0] for c in n.args[4])
    if n.op == "loopys":
        return (n.args[3],) + tuple(c[0] for c in n.args[4])
    if n.op == "whileout":
        return tuple(c[0] for c in n.args[2])
    if n.op == "deriv":
        return tuple(n.args[2])
    if n.op == "jvp":
        return tuple(n.args[1])
    return ()


def support(n):
    """Free leaves (inputs and binders) of n."""
    r = _dep_cache.get(n.id)
    if r is not None:
        return r
    # iterative post-order
    stack_ = [(n, False)]
    while stack_:
        m, done = stack_.pop()
        if m.id in _dep_cache:
            continue
        if done:
            acc = set()
            if m.op in LEAF:
                acc.add(m)
            for c in children(m):
                acc |= _dep_cache[c.id]
            acc -= set(bound(m))
            _dep_cache[m.id] = frozenset(acc)
        else:
            stack_.append((m, True))
            for c in children(m):
                if c.id not in _dep_cache:
                    stack_.append((c, False))
    return _dep_cache[n.id]


def depends(n, leaf):
    return leaf in support(n)


def subst(n, mapping):
    """Binder-aware substitution with re-normalisation."""
    if not mapping:
        return n
    memos = {}

    def go(m, mp, memo):
        if m in mp:
            return mp[m]
        r = memo.get(m.id)
        if r is not None:
            return r
        if not (support(m) & mp.keys()):
            memo[m.id] = m
            return m
        bs = bound(m)
        mp2, memo2 = mp, memo
        if any(b in mp for b in bs):
            mp2 = {k: v for k, v in mp.items() if k not in bs}
            memo2 = memos.setdefault(frozenset(k.id for k in mp2), {})

        def rec(a):
            if isinstance(a, N):
                return go(a, mp2, memo2)
            if isinstance(a, tuple):
                return tuple(rec(x) for x in a)
            return a
        r = mk(m.op, *[rec(a) for a in m.args])
        memo[m.id] = r
        return r
    return go(n, mapping, {})


def mk(op, *args):
    from . import ops
    f = ops.REBUILD.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


# ---------------------------------------------------------------- printing
def show(n, depth=6):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, depth) for x in n) + ")"
        return str(n)
    if n.op == "num":
        return str(n.args[0])
    if n.op == "c":
        return repr(n.args[0])
    if n.op == "sym":
        return str(n.args[0])
    if depth <= 0:
        return "…"
    if n.op == "lin":
        parts = [] if n.args[0] == 0 else [str(n.args[0])]
        for k, v in n.args[1]:
            s = show(k, depth - 1)
            parts.append(s if v == 1 else f"{v}*{s}")
        return "(" + " + ".join(parts) + ")"
    if n.op == "mono":
        return "·".join(
            show(k, depth - 1) + ("" if e is ONE else "^" + show(e, depth - 1)) for k, e in n.args[0])
    if n.op == "iv":
        return f"i{n.args[0]}"
    if n.op == "vi":
        return f"v{n.args[0]}"
    if n.op == "lv":
        return f"carry{n.args[0]}<{show(n.args[1], 2)}>"
    if n.op in ("tuple", "list"):
        return ("(" if n.op == "tuple" else "[") + ", ".join(show(a, depth - 1) for a in n.args) + (")" if n.op == "tuple" else "]")
    if n.op == "obj":
        return n.args[0].split(".")[-1] + "{" + ", ".join(f"{k}={show(v, depth-1)}" for k, v in n.args[1]) + "}"
    if n.op in ("lt", "le", "eq", "and", "or"):
        s = {"lt": "<", "le": "<=", "eq": "==", "and": "&", "or": "|"}[n.op]
        return "(" + s.join(show(a, depth - 1) for a in n.args) + ")"
    if n.op == "index":
        return show(n.args[0], depth - 1) + "[" + ",".join(show(k, depth - 1) for k in n.args[1]) + "]"
    if n.op == "slice":
        return ":".join("" if a is NONE else show(a, depth - 1) for a in n.args)
    return n.op + "(" + ", ".join(show(a, depth - 1) for a in n.args) + ")"


def loc(n):
    return LOCS.get(n.id)
