"""Three-valued comparison of a computed value with its reference value.

OK       the two value graphs have the same normal form
BAD      they definitely differ (see rules below)
UNKNOWN  they could not be shown equal, but the difference is not of a recognised kind
         (unmodelled operation, both sides use operations the other does not)
"""
from . import nodes as nd
from .nodes import N, shape, show
from .norm import *
from . import norm as nm
from .elem import Norm
from . import shapes as sh

OK, UNKNOWN, BAD = "ok", "unknown", "bad"

# operations which, applied to the same operand, definitely mean something else
FAMILIES = [
    {"arg:argmax", "arg:nanargmax"},
    {"maximum", "minimum"},
    {"sin", "cos"},
    {"lt", "eq"},
    {"reduce:max", "reduce:min", "reduce:nanmax", "reduce:nanmin", "reduce:prod", "reduce:median", "reduce:any", "reduce:all"},
    {"inf", "nan"},
]


def family(h):
    for i, f in enumerate(FAMILIES):
        if h in f:
            return i
    return None


class Result:
    def __init__(self, status, why="", node=None):
        self.status, self.why, self.node = status, why, node

    def __repr__(self):
        return f"<{self.status} {self.why}>"


def worst(rs):
    b = [r for r in rs if r.status == BAD]
    if b:
        return b[0]
    u = [r for r in rs if r.status == UNKNOWN]
    if u:
        return u[0]
    return Result(OK)


# ------------------------------------------------------------------ deep heads
def heads(x, out=None, seen=None):
    """All operation heads and leaf names mentioned in a normal form."""
    if out is None:
        out, seen = set(), set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m.f:
                heads(a, out, seen)
            for _, e in m.b:
                heads(e, out, seen)
    elif isinstance(x, Lam):
        heads(x.body, out, seen)
        for e in x.ext:
            heads(e, out, seen)
    elif isinstance(x, Atom):
        if x.id in seen:
            return out
        seen.add(x.id)
        if x.head == "ix" or x.head == "prime":
            return out
        if x.head == "el" and isinstance(x.args[0], str):
            out.add("el:" + x.args[0])
        elif x.head == "el" and isinstance(x.args[0], tuple) and x.args[0] and x.args[0][0] in ("carry", "ycarry", "wcarry", "dv"):
            out.add("carry")
        elif x.head == "iv":
            out.add("iv")
            return out
        elif x.head == "fn":
            out.add("fn:" + x.args[0])
        else:
            out.add(x.head)
        for a in x.args:
            heads(a, out, seen)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("carry", "ycarry", "wcarry", "dv"):
            return out
        if x and isinstance(x[0], str) and x[0] in ("sym", "c", "cls", "clo", "ext", "const"):
            out.add(":".join(str(y) for y in x if isinstance(y, str)))
            return out
        for y in x:
            heads(y, out, seen)
    return out


# opaque primitives with a fixed meaning of their own (random draws, keys, factorisations)
PRIMITIVE = {"op:" + k for k in ("choice", "permutation", "draw", "split", "fold_in", "newkey", "app", "tripos", "trilen", "softmax", "halfidx", "thinidx", "baseidx", "basew", "treeorder", "qp", "qp_primal", "m", "attr", "la_lstsq", "la_svd", "la_qr", "la_eigh", "solve")}


def unmodelled(h):
    return h.startswith("op:") and h not in PRIMITIVE


def head_verdict(a, b, what):
    ha, hb = heads(a), heads(b)
    drop, add = hb - ha, ha - hb
    odd = [h for h in drop | add if unmodelled(h)]
    if odd:
        return Result(UNKNOWN, f"{what}: differs in unmodelled operations {sorted(odd)[:4]}")
    if not drop and not add:
        return Result(BAD, f"{what}: same operations and operands, combined differently")
    if not add:
        return Result(BAD, f"{what}: does not depend on {sorted(drop)[:4]}")
    if not drop and all(h.startswith(("red:m", "red:nanm", "arg:")) or h in ("isnan", "isfinite", "isinf", "inf", "nan", "isin", "argsort", "sort") for h in add):
        # selections can be written in terms of one another
        return Result(UNKNOWN, f"{what}: differs in operations +{sorted(add)[:4]}")
    if not drop:
        return Result(BAD, f"{what}: additionally depends on {sorted(add)[:4]}")
    if len(drop) == 1 and len(add) == 1:
        d, s = next(iter(drop)), next(iter(add))
        if family(d) is not None and family(d) == family(s):
            return Result(BAD, f"{what}: uses {s} where {d} is required")
        if d.startswith("el:") and s.startswith("el:"):
            return Result(BAD, f"{what}: uses {s[3:]} where {d[3:]} is required")
    return Result(UNKNOWN, f"{what}: differs in operations -{sorted(drop)[:4]} +{sorted(add)[:4]}")


# ------------------------------------------------------------------ structural comparison
def cmp_any(a, b, what, depth=0):
    """a: actual, b: reference (Poly / Lam / tuple / str)."""
    if akey(a) == akey(b):
        return Result(OK)
    if isinstance(a, Lam) and isinstance(b, Lam):
        if len(a.ext) != len(b.ext):
            return Result(BAD, f"{what}: rank {len(a.ext)} instead of {len(b.ext)}")
        rs = [cmp_poly(x, y, what + " (extent)", depth + 1) for x, y in zip(a.ext, b.ext)]
        vs = [fresh() for _ in a.vars]
        pa_ = lam_apply(a, [ix(v) for v in vs])
        pb_ = lam_apply(b, [ix(v) for v in vs])
        rs.append(cmp_poly(pa_, pb_, what, depth + 1))
        return worst(rs)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return cmp_poly(a, b, what, depth)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            if a and isinstance(a[0], str) and isinstance(b[0], str) and a[0] in ("sym", "c") and a[0] == b[0]:
                return Result(BAD, f"{what}: {a[1]} instead of {b[1]}")
            r = worst([cmp_any(x, y, what, depth + 1) for x, y in zip(a, b)])
            if r.status != OK:
                return r
        return head_verdict(a, b, what)
    return head_verdict(a, b, what)


def top_atoms(p):
    s = {}
    for m in p.t:
        for a, _ in m.f:
            s[a.id] = a
    return s


def cmp_poly(a, b, what, depth=0):
    if a.fp == b.fp:
        return Result(OK)
    if depth > 12:
        return head_verdict(a, b, what)
    ta, tb = top_atoms(a), top_atoms(b)
    da = [x for i, x in ta.items() if i not in tb]
    db = [x for i, x in tb.items() if i not in ta]
    if da and db and len(da) == len(db) <= 3:
        # try to explain the difference by pairwise-different atoms
        import itertools
        from .elem import map_atoms
        for perm in itertools.permutations(db):
            if any(family(x.head) is None and x.head != y.head or family(x.head) != family(y.head) for x, y in zip(da, perm)):
                continue
            mp = {x.id: y for x, y in zip(da, perm)}
            try:
                q = Poly({})
                q = map_top(a, mp)
            except TooBig:
                continue
            if q.fp == b.fp:
                rs = []
                for x, y in zip(da, perm):
                    if x.head != y.head:
                        if akey(x.args) == akey(y.args):
                            rs.append(Result(BAD, f"{what}: uses {x.head} where {y.head} is required"))
                        else:
                            rs.append(head_verdict(x, y, what))
                    else:
                        rs.append(cmp_args(x, y, what, depth + 1))
                return worst(rs) if worst(rs).status != OK else head_verdict(a, b, what)
    return head_verdict(a, b, what)


def map_top(p, mp):
    out = ZERO
    for m, c in p.t.items():
        f = {}
        for a, e in m.f:
            y = mp.get(a.id, a)
            f[y] = f.get(y, F0) + e
        out = padd(out, Poly({Mono.make(f, m.b): c}))
    return out


def cmp_args(x, y, what, depth):
    if x.head == "el" and isinstance(x.args[0], tuple) and isinstance(y.args[0], tuple) and x.args[0][:1] == ("loop",) == y.args[0][:1]:
        la, lb = x.args[0][1], y.args[0][1]
        return cmp_loop(la, lb, what, depth)
    if len(x.args) != len(y.args):
        return head_verdict(x, y, what)
    r = worst([cmp_any(p, q, what, depth) for p, q in zip(x.args, y.args)])
    return r if r.status != OK else head_verdict(x, y, what)


def loop_base(l):
    return nm.H("loopname", l[0].fp, l[1].fp, tuple(sorted(repr(akey(i)) for i in l[3])))


def rename_loop(l, base, order):
    """The loop's step values with carries named after another loop (position j -> order[j])."""
    from .elem import map_any
    own = loop_base(l)

    def tf(t):
        if len(t) == 4 and t[0] == "carry" and t[1] == own and isinstance(t[3], int):
            return ("carry", base, t[2], order[t[3]])
        return None

    def fn(a):
        if a.head == "iv" and a.args[0] == own:
            return pa(atom("iv", base, a.args[1]))
        return None
    return [map_any(b, fn, tf) for b in l[4]]


def cmp_loop(la, lb, what, depth):
    if len(la[3]) != len(lb[3]):
        r = head_verdict(la, lb, what)
        if r.status == BAD and len(la[3]) < len(lb[3]) and not (heads(la) - heads(lb)):
            return Result(BAD, r.why + f" (loop carries {len(la[3])} values instead of {len(lb[3])})")
        return Result(UNKNOWN, f"{what}: loop carries {len(la[3])} values instead of {len(lb[3])}")
    import itertools
    n = len(la[3])
    bb = loop_base(lb)
    best = None
    perms = [list(range(n))] + [list(p) for p in itertools.permutations(range(n))] if n <= 4 else [list(range(n))]
    for order in perms:
        # component j of la plays the role of component order[j] of lb
        try:
            bodies = rename_loop(la, bb, order)
        except TooBig:
            continue
        di = [j for j in range(n) if akey(la[3][j]) != akey(lb[3][order[j]])]
        db = [j for j in range(n) if akey(bodies[j]) != akey(lb[4][order[j]])]
        k = (len(di) + len(db) + (order[la[2]] != lb[2]), order)
        if best is None or k < best[0]:
            best = (k, order, bodies, di, db)
    if best is None:
        return Result(UNKNOWN, f"{what}: loops not aligned")
    _, order, bodies, di, db = best
    rs = [cmp_poly(la[1], lb[1], what + " (number of iterations)", depth)]
    if order[la[2]] != lb[2]:
        rs.append(Result(UNKNOWN if di or db else BAD, f"{what}: returns a different loop variable"))
    for j in di:
        rs.append(cmp_any(la[3][j], lb[3][order[j]], what + " (loop initial value)", depth))
    for j in db:
        rs.append(cmp_any(bodies[j], lb[4][order[j]], what + " (loop step)", depth))
    w = worst(rs)
    if w.status == BAD and di and db:
        # initial value and step both changed: possibly another representation of the same state
        return Result(UNKNOWN, w.why + " (loop state represented differently)")
    return w


# ------------------------------------------------------------------ node-level comparison
def compare(act, ref, what="value", ignore=()):
    """Compare value-graph nodes (arrays, scalars, tuples, objects)."""
    if act is ref:
        return Result(OK)
    if not isinstance(act, N) or not isinstance(ref, N):
        return Result(OK if act == ref else UNKNOWN, what)
    if act is nd.BOT and ref is not nd.BOT:
        return Result(BAD, f"{what}: always raises", act)
    if act.op == "obj" and ref.op == "obj":
        if act.args[0] != ref.args[0]:
            return Result(BAD, f"{what}: is a {act.args[0].split('.')[-1]} instead of {ref.args[0].split('.')[-1]}", act)
        fa, fr = dict(act.args[1]), dict(ref.args[1])
        rs = []
        for k in fr:
            if k in ignore:
                continue
            if k not in fa:
                rs.append(Result(UNKNOWN, f"{what}.{k} missing"))
            else:
                rs.append(compare(fa[k], fr[k], f"{what}.{k.lstrip('_')}", ignore))
        return worst(rs)
    if act.op in ("tuple", "list") and ref.op in ("tuple", "list"):
        if len(act.args) != len(ref.args):
            return Result(BAD, f"{what}: has {len(act.args)} elements instead of {len(ref.args)}", act)
        return worst([compare(x, y, f"{what}[{i}]", ignore) for i, (x, y) in enumerate(zip(act.args, ref.args))])
    if act.op == "phi" or ref.op == "phi":
        if struct(act) or struct(ref):
            return cmp_phi(act, ref, what, ignore)
    if (act is nd.NONE) != (ref is nd.NONE) and act.op not in ("phi", "unk"):
        return Result(BAD, f"{what}: {'None' if act is nd.NONE else 'not None'}", act)
    if act.op == "c" and ref.op == "c":
        return Result(BAD, f"{what}: {act.args[0]!r} instead of {ref.args[0]!r}", act)
    if struct(act) != struct(ref):
        if act.op == "unk":
            return Result(UNKNOWN, f"{what}: {act.args[0]}", act)
        return Result(UNKNOWN, f"{what}: different structure ({act.op} / {ref.op})", act)
    # arrays and scalars
    sa, sr = shape(act), shape(ref)
    bad = mismatch(act)
    if bad is not None:
        return Result(BAD, f"{what}: combines arrays of incompatible sizes {show(bad[0])} and {show(bad[1])}", bad[2])
    if sa is not None and sr is not None and len(sa) != len(sr):
        return Result(BAD, f"{what}: has rank {len(sa)} instead of {len(sr)}", act)
    z = Norm()
    try:
        if sa is not None and sr is not None:
            la, lr = z.lam_of(act), z.lam_of(ref)
        else:
            la, lr = z.arg(act, {}), z.arg(ref, {})
        if akey(la) == akey(lr):
            return Result(OK)
        if z.imprecise:
            return Result(UNKNOWN, f"{what}: not fully modelled ({z.imprecise[0]})", act)
        if entrywise_equal(act, ref):
            return Result(OK)
        r = cmp_any(la, lr, what)
        if r.status == UNKNOWN:
            lost = independent(act, lr)
            if lost:
                r = Result(BAD, f"{what}: does not depend on {sorted(lost)[:4]}")
        if r.status == OK:
            r = Result(UNKNOWN, f"{what}: not shown equal")
        r.node = act
        return r
    except TooBig:
        return Result(UNKNOWN, f"{what}: normal form too large", act)


def entrywise_equal(act, ref):
    """The two values agree when every array of literal size is represented entry by entry."""
    if not any(d.op == "num" and 2 <= d.args[0] <= 64 for n in nd.walk(act) for d in (shape(n) or ())):
        return False
    nm.entrywise(400000)
    try:
        z = Norm()
        return akey(z.arg(act, {})) == akey(z.arg(ref, {})) and not z.imprecise
    except TooBig:
        return False
    finally:
        nm.entrywise(0)


_mm_seen = {}


def mismatch(act):
    """A broadcasting operation in the value whose operands have definitely incompatible sizes."""
    for n in nd.walk(act):
        if n.op in sh.BROADCASTING:
            if n.id not in _mm_seen:
                _mm_seen[n.id] = sh.conflict(n)
            c = _mm_seen[n.id]
            if c is not None:
                return c[0], c[1], n
    return None


def independent(act, ref_form):
    """Array inputs that the reference form mentions but from which nothing flows into the actual value."""
    have = set()
    for n in nd.walk(act):
        if n.op == "unk":
            return None
        if n.op == "sym":
            have.add(n.args[0])
    return {h[3:] for h in heads(ref_form) if h.startswith("el:")} & ARRAYS - have


ARRAYS = set()      # names of the array inputs (registered by the framework)


def struct(n):
    if n.op == "phi":
        return struct(n.args[1]) or struct(n.args[2])
    return n.op in ("obj", "tuple", "list", "dict", "none") or n is nd.NONE or (n.op == "c" and isinstance(n.args[0], str))


def cmp_phi(act, ref, what, ignore):
    """Gated structures: align on the condition of either side."""
    if act.op == "phi" and ref.op == "phi" and act.args[0] is ref.args[0]:
        return worst([compare(act.args[1], ref.args[1], what, ignore), compare(act.args[2], ref.args[2], what, ignore)])
    p = act if act.op == "phi" else ref
    c = p.args[0]
    out = []
    for v in (True, False):
        a, r = assume(act, c, v), assume(ref, c, v)
        if a is nd.BOT and r is nd.BOT:
            continue
        out.append(compare(a, r, what, ignore))
    return worst(out)


def assume(n, c, v):
    """n under the hypothesis that condition c has truth value v."""
    if n.op != "phi":
        return n
    if n.args[0] is c:
        return assume(n.args[1 if v else 2], c, v)
    if n.args[0] is nd.lnot(c):
        return assume(n.args[2 if v else 1], c, v)
    return nd.phi(n.args[0], assume(n.args[1], c, v), assume(n.args[2], c, v))


# ------------------------------------------------------------------ locating a difference
def frontier(act, ref):
    """Source locations of the smallest sub-values of act that do not occur in ref."""
    known = {n.id for n in nd.walk(ref)}
    out = []
    for n in nd.walk(act):
        if n.id in known or n.id not in nd.LOCS:
            continue
        if all(c.id in known for c in nd.children(n)):
            out.append(nd.LOCS[n.id])
    if not out:
        out = [nd.LOCS[n.id] for n in nd.walk(act) if n.id not in known and n.id in nd.LOCS]
    return out
