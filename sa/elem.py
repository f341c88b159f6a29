"""Element-wise (index notation) semantics of value-graph nodes."""
from fractions import Fraction

from . import nodes as nd
from .nodes import N, raw, shape, support, show
from . import nodes
from .norm import *
from . import norm as nm

n_NONE, n_ZERO, n_ONE = nd.NONE, nd.ZERO, nd.ONE


def refresh_facts():
    """Make the dimension facts of the value graph available to the normal form."""
    nm.DIM_LO.clear()
    nm.LE_PAIRS.clear()
    for i in nd.NONNEG:
        n = nd.by_id(i)
        if n is not None and n.op == "sym":
            nm.DIM_LO[str(n.args[0])] = 0
            nm.INT_NAMES.add(str(n.args[0]))
    for a, b in nd.FACTS_LE:
        if b.op == "sym" and a.op == "num":
            k = str(b.args[0])
            nm.DIM_LO[k] = max(nm.DIM_LO.get(k, 0), a.args[0])
        elif a.op == "sym" and b.op == "sym":
            nm.LE_PAIRS.append((str(a.args[0]), str(b.args[0])))
        elif a.op == "lin" and b.op == "sym" and a.args[0] >= 0 and len(a.args[1]) == 1 and a.args[1][0][0].op == "sym" and a.args[1][0][1] == 1:
            nm.LE_PAIRS.append((str(a.args[1][0][0].args[0]), str(b.args[0])))


def is_carry(b, name):
    """Does the loop step return the carried value itself?"""
    p = b.body if isinstance(b, Lam) else b
    if not isinstance(p, Poly) or len(p.t) != 1:
        return False
    m, c = next(iter(p.t.items()))
    if c != 1 or m.b or len(m.f) != 1:
        return False
    a, e = m.f[0]
    if e != 1 or a.head != "el" or a.args[0] != name:
        return False
    if not isinstance(b, Lam):
        return a.args[1] == ()
    return len(a.args[1]) == len(b.vars) and all(i.fp == ix(v).fp for i, v in zip(a.args[1], b.vars))


def carries_in(x, name, out=None, seen=None):
    """Positions j of the carried values name + (j,) that x mentions."""
    if out is None:
        out, seen = set(), set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m.f:
                carries_in(a, name, out, seen)
            for _, e in m.b:
                carries_in(e, name, out, seen)
    elif isinstance(x, Lam):
        carries_in(x.body, name, out, seen)
        for e in x.ext:
            carries_in(e, name, out, seen)
    elif isinstance(x, nm.Atom):
        if x.id in seen:
            return out
        seen.add(x.id)
        for a in x.args:
            carries_in(a, name, out, seen)
    elif isinstance(x, tuple):
        if len(x) == len(name) + 1 and x[:len(name)] == name:
            out.add(x[-1])
        for y in x:
            carries_in(y, name, out, seen)
    return out


def absorb_inf(p):
    """Where an indicator adds an infinity, other terms of the same indicator do not matter."""
    infs = []
    for m, c in p.t.items():
        if not m.b and any(a.head == "inf" for a, _ in m.f):
            js = [a for a, _ in m.f if a.head != "inf"]
            if len(js) == 1 and js[0].ind:
                infs.append((m, js[0].id))
    if not infs:
        return p
    out = {}
    for m, c in p.t.items():
        own = [j for mm, j in infs if mm is m]
        if own:
            out[m] = Fraction(1 if c > 0 else -1)
        elif any(a.id == j for a, _ in m.f for _, j in infs):
            continue
        else:
            out[m] = c
    return Poly(out)


class Norm:
    """One normalisation context (fresh memo, imprecision flags)."""

    def __init__(self):
        self.memo = {}
        self.imprecise = []       # reasons an element rule fell back to an opaque atom
        self.loops = 0
        self.active = []
        refresh_facts()

    # -------------------------------------------------------------- helpers
    def envkey(self, n, env):
        if not env:
            return ()
        s = support(n)
        return tuple(sorted((b.id, akey(v)) for b, v in env.items() if b in s))

    def scalar(self, n, env=None):
        return self.el(n, (), env or {})

    def dim(self, d, env):
        return self.el(d, (), env)

    def lam_of(self, n, env=None):
        env = env or {}
        s = shape(n)
        if s is None:
            return None
        k = ("lam", n.id, self.envkey(n, env))
        r = self.memo.get(k)
        if r is not None:
            return r
        vs = [fresh() for _ in s]
        ext = [self.dim(d, env) for d in s]
        body = self.el(n, tuple(ix(v) for v in vs), env)
        # unit extents are always read at 0
        body = rename(body, {v: ZERO for v, x in zip(vs, ext) if x.const() == 1})
        r = lam(vs, ext, body)
        self.memo[k] = r
        return r

    def arg(self, n, env):
        """Canonical argument of an opaque operation."""
        if not isinstance(n, N):
            if isinstance(n, tuple):
                return tuple(self.arg(x, env) for x in n)
            return str(n)
        if n.op in ("tuple", "list"):
            return ("seq",) + tuple(self.arg(x, env) for x in n.args)
        if n.op == "obj":
            return ("obj", n.args[0]) + tuple((k, self.arg(v, env)) for k, v in n.args[1])
        if n.op == "dict":
            return ("dict",) + tuple((self.arg(k, env), self.arg(v, env)) for k, v in n.args[0])
        if n.op == "c" and not isinstance(n.args[0], bool):
            return ("c", str(n.args[0]))
        if n.op in ("clo",):
            return ("clo", n.args[0].name)
        if n.op == "cls":
            return ("cls", n.args[0].qual)
        if n.op in ("ext", "mod"):
            return (n.op, n.args[0])
        if n.op == "sym" and not isinstance(n.args[1], str):
            return ("sym", n.args[0])
        if n.op == "slice" or n.op == "ellipsis":
            return (n.op,) + tuple(self.arg(a, env) for a in n.args)
        if n.op == "unk":
            self.imprecise.append("unk:" + str(n.args[0]))
        l = self.lam_of(n, env)
        if l is not None:
            return l
        if n.op in nd.LEAF:
            if n in env:
                return env[n]
            return (n.op, str(n.args[0]))
        if n.op == "index":
            k = n.args[1][0] if isinstance(n.args[1], tuple) and len(n.args[1]) == 1 else n.args[1]
            if isinstance(k, N) and k.op == "c" and isinstance(k.args[0], str):
                return ("item", k.args[0], self.arg(n.args[0], env))     # entry of an opaque mapping
        if n.op in ("lin", "mono", "f", "matmul", "dot", "reduce", "index", "stack", "where", "concat", "pad", "reshape"):
            self.imprecise.append("shape:" + n.op)
        return (n.op,) + tuple(self.arg(a, env) for a in n.args)

    def bidx(self, n, idx):
        """Broadcast outer index tuple to the rank of n."""
        s = shape(n)
        if s is None:
            self.imprecise.append("rank:" + n.op)
            return idx
        k = len(s)
        if k > len(idx):
            self.imprecise.append("rank>idx:" + n.op)
            return idx
        use = idx[len(idx) - k:] if k else ()
        return tuple(ZERO if d is n_ONE else i for d, i in zip(s, use))

    def el(self, n, idx, env):
        key = (n.id, tuple(i.fp for i in idx), self.envkey(n, env))
        r = self.memo.get(key)
        if r is None:
            r = self.entries(n, idx, env) if nm.LISTING[0] and n.op in ("concat", "reshape", "pad") else None
            if r is None:
                f = getattr(self, "o_" + n.op, None)
                r = f(n, idx, env) if f is not None else self.opaque(n, idx, env)
            self.memo[key] = r
        return r

    def entries(self, n, idx, env):
        """Entry-by-entry mode: look a computed index up in the list of entries."""
        s = shape(n)
        for a, (i, d) in enumerate(zip(idx, s or ())):
            if i.const() is None and d.op == "num" and 1 <= d.args[0] <= 64 and len(s) == len(idx):
                k = int(d.args[0])
                nm.LISTING[0] = max(0, nm.LISTING[0] - k)
                if not nm.LISTING[0]:
                    raise TooBig("too many entries to list")
                return nm.listed(i, tuple(self.el(n, idx[:a] + (pc(j),) + idx[a + 1:], env) for j in range(k)))
        return None

    def opaque(self, n, idx, env, ind=False):
        return pa(atom("op:" + n.op, tuple(self.arg(a, env) for a in n.args), tuple(idx), ind=ind))

    # -------------------------------------------------------------- leaves
    def o_num(self, n, idx, env):
        return pc(n.args[0])

    def o_c(self, n, idx, env):
        v = n.args[0]
        if v is True:
            return ONE
        if v is False:
            return ZERO
        return pa(atom("const", repr(v)))

    def o_inf(self, n, idx, env):
        return pa(atom("inf"))

    def o_nan(self, n, idx, env):
        return pa(atom("nan"))

    def o_pi(self, n, idx, env):
        return pa(atom("pi"))

    def o_sym(self, n, idx, env):
        if n in env:
            v = env[n]
            return v if isinstance(v, Poly) else lam_apply(v, idx) if isinstance(v, Lam) else pa(atom("el", v, tuple(idx)))
        if n.args[1] == "int" and not idx:
            nm.INT_NAMES.add(str(n.args[0]))
        return pa(atom("el", str(n.args[0]), tuple(idx)))

    def o_vi(self, n, idx, env):
        if n in env:
            return env[n]
        return pa(atom("freevar", str(n.id)))

    def o_iv(self, n, idx, env):
        if n in env:
            return env[n]
        return pa(atom("freevar", str(n.id)))

    def o_lv(self, n, idx, env):
        if n in env:
            if isinstance(env[n], Poly):
                return env[n]
            if isinstance(env[n], Lam):
                return lam_apply(env[n], list(idx))
            return pa(atom("el", env[n], tuple(idx)))
        return pa(atom("el", "freecarry%d" % n.id, tuple(idx)))

    def o_dv(self, n, idx, env):
        if n in env:
            return pa(atom("el", env[n], tuple(idx)))
        return pa(atom("el", "dv%d" % n.id, tuple(idx)))

    # -------------------------------------------------------------- arithmetic
    def sub_el(self, c, idx, env):
        return self.el(c, self.bidx(c, idx), env)

    def o_lin(self, n, idx, env):
        return padd(pc(n.args[0]), *[pscale(self.sub_el(k, idx, env), c) for k, c in n.args[1]])

    def o_mono(self, n, idx, env):
        out = ONE
        for k, e in n.args[0]:
            b = self.sub_el(k, idx, env)
            x = self.sub_el(e, idx, env)
            out = pmul(out, ppow_sym(b, x))
        return out

    def o_f(self, n, idx, env):
        return pfn(n.args[0], self.sub_el(n.args[1], idx, env))

    def o_maximum(self, n, idx, env):
        return pmaxmin("maximum", self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_minimum(self, n, idx, env):
        return pmaxmin("minimum", self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_pmax(self, n, idx, env):
        r = self.el(n.args[0], (), env)
        for a in n.args[1:]:
            r = pmaxmin("maximum", r, self.el(a, (), env))
        return r

    def o_pmin(self, n, idx, env):
        r = self.el(n.args[0], (), env)
        for a in n.args[1:]:
            r = pmaxmin("minimum", r, self.el(a, (), env))
        return r

    def cond(self, n, idx, env):
        return self.sub_el(n, idx, env)

    def o_lt(self, n, idx, env):
        return ind_lt(self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_le(self, n, idx, env):
        return psub(ONE, ind_lt(self.sub_el(n.args[1], idx, env), self.sub_el(n.args[0], idx, env)))

    def o_eq(self, n, idx, env):
        return ind_eq(self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_not(self, n, idx, env):
        return psub(ONE, self.sub_el(n.args[0], idx, env))

    def o_and(self, n, idx, env):
        return pmul(*[self.sub_el(a, idx, env) for a in n.args])

    def o_or(self, n, idx, env):
        r = ONE
        for a in n.args:
            r = pmul(r, psub(ONE, self.sub_el(a, idx, env)))
        return psub(ONE, r)

    def boolish(self, p):
        """Force a condition to be an indicator polynomial."""
        for m in p.t:
            for a, e in m.f:
                if not a.ind:
                    return pa(atom("nz", p, ind=True))
        return p

    def o_where(self, n, idx, env):
        c = self.boolish(self.sub_el(n.args[0], idx, env))
        a = self.sub_el(n.args[1], idx, env)
        b = self.sub_el(n.args[2], idx, env)
        return padd(pmul(c, a), pmul(psub(ONE, c), b))

    def o_phi(self, n, idx, env):
        c = n.args[0]
        if c.op in ("eq", "is") and all(isinstance(a, N) and a.op in ("sym", "obj") and shape(a) is None for a in c.args):
            # under the hypothesis a == b the two branches may coincide
            a, b = c.args
            try:
                x = self.sub_el(n.args[1], idx, env)
                for u, v in ((a, b), (b, a)):
                    if u.op == "sym":
                        y = self.sub_el(nd.subst(n.args[2], {u: v}), idx, env)
                        x2 = self.sub_el(nd.subst(n.args[1], {u: v}), idx, env)
                        if x2.fp == y.fp:
                            return self.sub_el(n.args[2], idx, env)
            except TooBig:
                pass
        c = self.boolish(self.el(n.args[0], (), env))
        a = self.sub_el(n.args[1], idx, env)
        b = self.sub_el(n.args[2], idx, env)
        return padd(pmul(c, a), pmul(psub(ONE, c), b))

    def o_isnone(self, n, idx, env):
        return self.opaque(n, idx, env, ind=True)

    o_isinst = o_isnone
    o_caught = o_isnone

    def o_is(self, n, idx, env):
        return self.opaque(n, idx, env, ind=True)

    def o_isin(self, n, idx, env):
        return pa(atom("isin", self.sub_el(n.args[0], idx, env), self.arg(n.args[1], env), ind=True))

    def o_floordiv(self, n, idx, env):
        return pfloordiv(self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_mod(self, n, idx, env):
        return pmod(self.sub_el(n.args[0], idx, env), self.sub_el(n.args[1], idx, env))

    def o_ceil(self, n, idx, env):
        return pfn("ceil", self.el(n.args[0], (), env))

    def o_floor(self, n, idx, env):
        return pfn("floor", self.el(n.args[0], (), env))

    def o_int_(self, n, idx, env):
        return pfn("int", self.el(n.args[0], (), env))

    def o_nan_to_num(self, n, idx, env):
        return self.nan0(self.sub_el(n.args[0], idx, env), tuple(self.arg(a, env) for a in n.args[1:]))

    def nan0(self, p, rest=None):
        if rest is None:
            rest = (self.arg(n_ZERO, {}), self.arg(n_NONE, {}), self.arg(n_NONE, {}))
        def finite(q):
            return all(not m.b and all(a.head in ("ix", "prime") or (a.head == "el" and a.args[1] == () and a.args[0] in nm.DIM_LO) for a, _ in m.f) for m in q.t)
        return case_split(p, lambda q: q if finite(q) else pa(atom("nan_to_num", q, rest)))

    # -------------------------------------------------------------- structure
    def o_index(self, n, idx, env):
        x, keys = n.args
        s = shape(x)
        if s is None:
            return self.opaque(n, idx, env)
        inner, pos, out = [], 0, 0
        advs = [k for k in keys if k is not n_NONE and k.op != "slice" and not (k.op in ("num", "iv", "vi") or shape(k) == ())]
        if any(shape(k) is None for k in keys if k is not n_NONE and k.op not in ("slice", "num", "iv", "vi")):
            self.imprecise.append("index key rank")
            return self.opaque(n, idx, env)
        advrank = max([len(shape(k)) for k in advs], default=0)
        # numpy: adjacent advanced (incl. scalar ints when arrays present) keys form one block
        advpos = None
        order = []
        for k in keys:
            if k is n_NONE:
                order.append(("new", None))
            elif k.op == "slice":
                order.append(("sl", k))
            elif k.op in ("num", "iv", "vi") or shape(k) == ():
                order.append(("sc", k))
            else:
                order.append(("adv", k))
        kinds = [o[0] for o in order]
        if advs:
            blk = [i for i, o in enumerate(kinds) if o in ("adv",) or (o == "sc")]
            if len(advs) > 1 or any(o == "sc" for o in kinds):
                if blk != list(range(blk[0], blk[-1] + 1)):
                    self.imprecise.append("split advanced index")
                    return self.opaque(n, idx, env)
        cur = 0
        advidx = None
        for kd, k in order:
            if kd == "new":
                cur += 1
                continue
            d = s[pos] if pos < len(s) else n_ONE
            if kd == "sc":
                v = self.el(k, (), env)
                c = v.const()
                if c is not None and c < 0:
                    v = padd(v, self.dim(d, env))
                inner.append(v)
            elif kd == "sl":
                if cur >= len(idx):
                    self.imprecise.append("slice idx")
                    return self.opaque(n, idx, env)
                i = idx[cur]
                cur += 1
                a, b, st = k.args
                if st is not n_NONE:
                    if st.op == "num" and st.args[0] == -1 and a is n_NONE and b is n_NONE:
                        inner.append(psub(psub(self.dim(d, env), ONE), i))
                    elif a is n_NONE and st.op == "num" and st.args[0] > 0:
                        inner.append(pscale(i, st.args[0]))
                    else:
                        self.imprecise.append("slice step")
                        return self.opaque(n, idx, env)
                elif a is n_NONE:
                    inner.append(i)
                else:
                    v = self.el(a, (), env)
                    c = v.const()
                    if c is not None and c < 0:
                        v = padd(v, self.dim(d, env))
                    inner.append(padd(i, v))
            else:
                if advidx is None:
                    advidx = idx[cur:cur + advrank]
                    cur += advrank
                v = self.el(k, self.bidx(k, tuple(advidx)), env)
                inner.append(v)
            pos += 1
        inner.extend(idx[cur:])
        return self.gather(x, inner, 0, env)

    def gather(self, x, inner, i, env):
        """x[inner], splitting index positions that are gated by an indicator"""
        if i == len(inner):
            return self.el(x, tuple(inner), env)
        p = inner[i]
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and not m.b and len(m.f) == 1 and m.f[0][0].head == "vsel" and m.f[0][1] == 1:
                a = m.f[0][0]
                vs = [self.gather(x, inner[:i] + [q] + inner[i + 1:], i, env) for q in a.args[1]]
                return vs[0] if all(v.fp == vs[0].fp for v in vs) else pa(atom("vsel", a.args[0], tuple(vs)))
        if not any(a.ind for m in p.t for a, _ in m.f):
            return self.gather(x, inner, i + 1, env)
        return nm.case_split(p, lambda q: self.gather(x, inner[:i] + [q] + inner[i + 1:], i + 1, env), 2)

    def o_expand_dims(self, n, idx, env):
        a = int(n.args[1].args[0])
        return self.el(n.args[0], idx[:a] + idx[a + 1:], env)

    def o_squeeze(self, n, idx, env):
        s = shape(n.args[0])
        if s is None:
            return self.opaque(n, idx, env)
        it = iter(idx)
        return self.el(n.args[0], tuple(ZERO if d is n_ONE else next(it) for d in s), env)

    def o_transpose(self, n, idx, env):
        x, p = n.args
        if p is n_NONE:
            return self.el(x, tuple(reversed(idx)), env)
        perm = [int(q.args[0]) for q in p.args]
        inner = [None] * len(perm)
        for o, i in enumerate(perm):
            inner[i] = idx[o]
        return self.el(x, tuple(inner), env)

    def o_stack(self, n, idx, env):
        e, v, m, ax = n.args
        a = int(ax.args[0])
        env2 = dict(env)
        env2[v] = idx[a]
        return self.el(e, idx[:a] + idx[a + 1:], env2)

    def o_map(self, n, idx, env):
        if not idx:
            return self.opaque(n, idx, env)
        env2 = dict(env)
        env2[n.args[1]] = idx[0]
        return self.el(n.args[0], idx[1:], env2)

    def o_sumover(self, n, idx, env):
        e, v, m = n.args
        w = fresh()
        env2 = dict(env)
        env2[v] = ix(w)
        return psum(self.sub_el(e, idx, env2), w, self.dim(m, env))

    def o_full(self, n, idx, env):
        return self.sub_el(n.args[1], idx, env)

    def o_broadcast(self, n, idx, env):
        return self.sub_el(n.args[0], idx, env)

    def o_eye(self, n, idx, env):
        return ind_eq(idx[0], idx[1])

    def o_arange(self, n, idx, env):
        return idx[0]

    def o_vec(self, n, idx, env):
        xs = n.args[0]
        c = idx[0].const()
        if c is not None and c.denominator == 1 and -len(xs) <= c < len(xs):
            return self.el(xs[int(c)], idx[1:], env)
        if len(xs) == 1:
            return self.el(xs[0], idx[1:], env)
        vs = [self.sub_el(x, idx[1:], env) for x in xs]
        if all(v.fp == vs[0].fp for v in vs):
            return vs[0]
        if len(vs) > 3 or any(a.head.startswith("arg:") for m in idx[0].t for a, _ in m.f):
            return pa(atom("vsel", idx[0], tuple(vs)))      # computed selection: keep the alternatives together
        out, rest = ZERO, ONE
        for k, v in enumerate(vs[:-1]):
            here = ind_eq(idx[0], pc(k))
            out, rest = padd(out, pmul(here, v)), psub(rest, here)
        return padd(out, pmul(rest, vs[-1]))

    def o_concat(self, n, idx, env):
        xs, ax = n.args
        a = int(ax.args[0])
        off = ZERO
        out = ZERO
        prev = ONE                      # indicator: index beyond previous parts
        for k, x in enumerate(xs):
            s = shape(x)
            if s is None:
                return self.opaque(n, idx, env)
            end = padd(off, self.dim(s[a], env))
            here = ind_lt(idx[a], end) if k < len(xs) - 1 else ONE
            sub_ = idx[:a] + (psub(idx[a], off),) + idx[a + 1:]
            out = padd(out, pmul(prev, here, self.el(x, sub_, env)))
            prev = pmul(prev, psub(ONE, here))
            off = end
        return out

    def o_pad(self, n, idx, env):
        x, W, val = n.args
        s = shape(x)
        if s is None or len(W) != len(s):
            return self.opaque(n, idx, env)
        g = ONE
        sub_ = []
        for i, d, (lo, hi) in zip(idx, s, W):
            l = self.el(lo, (), env)
            j = psub(i, l)
            sub_.append(j)
            if hi is not n_ZERO:
                g = pmul(g, ind_lt(j, self.dim(d, env)))
            if lo is not n_ZERO:
                g = pmul(g, psub(ONE, ind_lt(j, ZERO)))
        return padd(pmul(g, self.el(x, tuple(sub_), env)), pmul(psub(ONE, g), self.el(val, (), env)))

    def o_diag(self, n, idx, env):
        x = n.args[0]
        if len(shape(x)) == 1:
            return pmul(ind_eq(idx[0], idx[1]), self.el(x, (idx[0],), env))
        return self.el(x, (idx[0], idx[0]), env)

    def o_bdiag(self, n, idx, env):
        return self.el(n.args[0], idx + (idx[-1],), env)

    def o_trilen(self, n, idx, env):
        kind, size, k = n.args
        N_, c = self.el(size, (), env), self.el(k, (), env).const()
        if kind == "triu" and c in (0, 1):
            return pscale(pmul(N_, padd(N_, pc(1 - 2 * c))), Fraction(1, 2))
        return self.opaque(n, idx, env)

    def tripos(self, idx, kind, k, env):
        """(i, j) is an entry of the index list of the triangle"""
        a, b = nm._as_atom(idx[0]), nm._as_atom(idx[1])
        if isinstance(a, Atom) and isinstance(b, Atom) and a.head == b.head == "op:tripos" and akey(a.args[1:]) == akey(b.args[1:]):
            x, y = a.args[0], b.args[0]
            return x[0] == y[0] == kind and x[3] == "0" and y[3] == "1" and akey(x[2]) == akey(self.arg(k, env)) == akey(y[2])
        return False

    def o_triu(self, n, idx, env):
        if self.tripos(idx, "triu", n.args[1], env):
            return self.el(n.args[0], idx, env)
        return pmul(psub(ONE, ind_lt(idx[1], padd(idx[0], self.el(n.args[1], (), env)))), self.el(n.args[0], idx, env))

    def o_tril(self, n, idx, env):
        return pmul(psub(ONE, ind_lt(padd(idx[0], self.el(n.args[1], (), env)), idx[1])), self.el(n.args[0], idx, env))

    def o_tile(self, n, idx, env):
        x, reps = n.args
        s = shape(x)
        if s is None:
            return self.opaque(n, idx, env)
        use = idx[len(idx) - len(s):]
        sub_ = []
        for i, d, r in zip(use, s, reps[len(reps) - len(s):]):
            sub_.append(i if r is n_ONE else (ZERO if d is n_ONE else pmod(i, self.dim(d, env))))
        return self.el(x, tuple(sub_), env)

    def o_scatter(self, n, idx, env):
        mode, x, keys, v = n.args
        base = self.el(x, idx, env)
        # only keys made of scalars / full slices are interpreted
        g = ONE
        vi = []
        ok = True
        for p, k in enumerate(keys):
            if k.op == "slice" and k.args[0] is n_NONE and k.args[1] is n_NONE and k.args[2] is n_NONE:
                vi.append(idx[p])
            elif k is not n_NONE and k.op != "slice" and (k.op in ("num", "iv", "vi") or shape(k) == ()):
                kk = self.el(k, (), env)
                c = kk.const()
                if c is not None and c < 0 and shape(x) is not None:
                    kk = padd(kk, self.dim(shape(x)[p], env))
                g = pmul(g, ind_eq(idx[p], kk))
            else:
                ok = False
        if ok:
            vi = tuple(vi) + tuple(idx[len(keys):])
            val = self.sub_el(v, vi, env)
            if mode == "set":
                return padd(pmul(g, val), pmul(psub(ONE, g), base))
            if mode == "add":
                return padd(base, pmul(g, val))
            if mode == "mul":
                return padd(pmul(g, base, val), pmul(psub(ONE, g), base))
        if len(keys) == 1 and keys[0] is not n_NONE and keys[0].op != "slice" and shape(keys[0]) is not None and len(shape(keys[0])) == 1:
            k = keys[0]
            if mode == "set":
                member = pa(atom("isin", idx[0], self.arg(k, env), ind=True))
                sv = shape(v)
                if sv == ():
                    val = self.el(v, (), env)
                    return padd(pmul(member, val), pmul(psub(ONE, member), base))
                # x.at[k].set(f(x[k]) gathered): value is positional; recognise gathers v[j] == u[k[j]]
                w = fresh()
                vv = self.sub_el(v, (ix(w),) + tuple(idx[1:]), env)
                kk = self.el(k, (ix(w),), env)
                g2 = self.ungather(vv, w, kk, idx[0])
                if g2 is not None:
                    return padd(pmul(member, g2), pmul(psub(ONE, member), base))
        return self.opaque(n, idx, env)

    def ungather(self, p, w, kk, target):
        """Rewrite p(k(w)) into p(target) when w only occurs through k(w)."""
        a = nm._as_atom(kk)
        if not isinstance(a, Atom):
            return None
        mark = fresh()
        r = replace_atom(p, a, ix(mark))
        if w in r.names:
            return None
        return rename(r, {mark: target})

    def o_reshape(self, n, idx, env):
        x, d, order = n.args
        s, t = shape(x), shape(n)
        if s is None or t is None:
            return self.opaque(n, idx, env)
        if order not in ("C", "F"):
            return self.opaque(n, idx, env)
        S, T = [self.dim(q, env) for q in s], [self.dim(q, env) for q in t]
        I_ = list(idx)
        if order == "F":
            S, T, I_ = S[::-1], T[::-1], I_[::-1]
        inner = self.reindex(S, T, I_)
        if inner is None:
            return self.opaque(n, idx, env)
        if order == "F":
            inner = inner[::-1]
        return self.el(x, tuple(inner), env)

    def reindex(self, S, T, I_):
        """Row-major indices into shape S of the element I_ of shape T (equal sizes)."""
        S, T, I_ = list(S), list(T), list(I_)
        front, back = [], []
        while S and T and S[0].fp == T[0].fp:
            S.pop(0), T.pop(0)
            front.append(I_.pop(0))
        while S and T and S[-1].fp == T[-1].fp:
            S.pop(), T.pop()
            back.insert(0, I_.pop())
        # unit axes carry no information
        keepT = [k for k, q in enumerate(T) if q.const() != 1]
        T, I_ = [T[k] for k in keepT], [I_[k] for k in keepT]
        keepS = [k for k, q in enumerate(S) if q.const() != 1]
        S2 = [S[k] for k in keepS]
        if len(S2) == len(T) and all(a.fp == b.fp for a, b in zip(S2, T)):
            sub_ = I_
        elif len(S2) == 0 and len(T) == 0:
            sub_ = []
        else:
            flat = ZERO
            for q, i in zip(T, I_):
                flat = padd(pmul(flat, q), i)
            sub_ = []
            for k in range(len(S2)):
                rest = ONE
                for q in S2[k + 1:]:
                    rest = pmul(rest, q)
                if k == len(S2) - 1:
                    sub_.append(flat)
                else:
                    v = pfloordiv(flat, rest)
                    sub_.append(v)
                    flat = psub(flat, pmul(rest, v))
        out = [ZERO] * len(S)
        for k, v in zip(keepS, sub_):
            out[k] = v
        return front + out + back

    # -------------------------------------------------------------- reductions
    def o_reduce(self, n, idx, env):
        kind, x, ax = n.args
        s = shape(x)
        if s is None:
            self.imprecise.append("reduce rank")
            return self.opaque(n, idx, env)
        if ax is n_NONE:
            axes = list(range(len(s)))
        elif ax.op == "num":
            axes = [int(ax.args[0]) % len(s)]
        elif ax.op == "tuple":
            axes = [int(a.args[0]) % len(s) for a in ax.args]
        else:
            return self.opaque(n, idx, env)
        vs = {a: fresh() for a in axes}
        it = iter(idx)
        full_ = []
        for a in range(len(s)):
            if a in vs:
                full_.append(ZERO if s[a] is n_ONE else ix(vs[a]))
            else:
                full_.append(next(it))
        body = self.el(x, tuple(full_), env)
        if kind == "sum":
            for a in axes:
                if s[a] is n_ONE:
                    continue
                body = psum(body, vs[a], self.dim(s[a], env))
            return body
        if kind in ("max", "min", "nanmax", "nanmin") and len(axes) == 1 and s[axes[0]] is not n_ONE and body.const() is None:
            # the extreme value is the value at its position
            a = axes[0]
            k = self.arg_position("nanarg" + kind[3:] if kind.startswith("nan") else "arg" + kind, x, C(a), tuple(idx), env)
            return self.el(x, tuple(idx[:a]) + (k,) + tuple(idx[a:]), env)
        l = lam([vs[a] for a in axes], [self.dim(s[a], env) for a in axes], body)
        return pa(atom("red:" + kind, l, ind=kind in ("any", "all")))

    def o_dot(self, n, idx, env):
        a, b = n.args
        s = shape(a)
        w = fresh()
        return psum(pmul(self.el(a, (ix(w),), env), self.el(b, (ix(w),), env)), w, self.dim(s[0], env))

    def o_matmul(self, n, idx, env):
        a, b = n.args
        s, t = shape(a), shape(b)
        if s is None or t is None or len(s) > 2 or len(t) > 2:
            self.imprecise.append("matmul rank")
            return self.opaque(n, idx, env)
        w = ix(fresh())
        wv = next(iter(w.t)).f[0][0].args[0]
        it = list(idx)
        ia = (it.pop(0), w) if len(s) == 2 else (w,)
        ib = (w, it.pop(0)) if len(t) == 2 else (w,)
        return psum(pmul(self.el(a, ia, env), self.el(b, ib, env)), wv, self.dim(s[-1], env))

    def o_average(self, n, idx, env):
        x, ax, w = n.args
        s = shape(x)
        if s is None or shape(w) is None or len(shape(w)) != 1 or ax.op != "num":
            if s is not None and len(s) == 1:
                ax = n_ZERO
            else:
                return self.opaque(n, idx, env)
        a = int(ax.args[0])
        v, u = fresh(), fresh()
        num = psum(pmul(self.el(w, (ix(v),), env), self.el(x, idx[:a] + (ix(v),) + idx[a:], env)), v, self.dim(s[a], env))
        den = psum(self.el(w, (ix(u),), env), u, self.dim(s[a], env))
        return pmul(num, ppow(den, -1))

    def o_argsel(self, n, idx, env):
        kind, x, ax = n.args
        if shape(x) is None:
            return self.opaque(n, idx, env)
        return self.arg_position(kind, x, ax, idx, env)

    def arg_position(self, kind, x, ax, idx, env):
        s = shape(x)
        if ax is n_NONE:
            vs = [fresh() for _ in s]
            ext = [self.dim(d, env) for d in s]
            body = self.el(x, tuple(ix(v) for v in vs), env)
        else:
            a = int(ax.args[0])
            vs = [fresh()]
            ext = [self.dim(s[a], env)]
            body = self.el(x, idx[:a] + (ix(vs[0]),) + idx[a:], env)
        body = absorb_inf(body)
        if len(vs) == 1 and ext[0].const() is not None and 2 <= ext[0].const() <= 8 and vs[0] in body.names:
            # finitely many candidates: list them
            a = 0 if ax is n_NONE else int(ax.args[0])
            rest = () if ax is n_NONE else idx
            cand = [absorb_inf(self.el(x, rest[:a] + (pc(k),) + rest[a:], env)) for k in range(int(ext[0].const()))]
            common = {m for m in cand[0].t if all(q.t.get(m) == cand[0].t[m] for q in cand)}
            cand = [Poly({m: c for m, c in q.t.items() if m not in common}) for q in cand]
            if kind.endswith("argmin"):
                cand, kind = [pscale(q, -1) for q in cand], kind[:-3] + "max"
            return pa(atom("arg:" + kind, tuple(cand)))
        # the position of an extremum is unchanged by terms common to all candidates and by positive factors
        import math as _m
        keep = {m: c for m, c in body.t.items() if any(v in m.names for v in vs)}
        if keep:
            g = 0
            for c in keep.values():
                g = Fraction(_m.gcd(Fraction(g).numerator * Fraction(c).denominator, Fraction(c).numerator * Fraction(g).denominator),
                             Fraction(g).denominator * Fraction(c).denominator)
            body = pscale(Poly(keep), 1 / abs(g))
        if kind.endswith("argmin"):
            body, kind = pscale(body, -1), kind[:-3] + "max"
        return pa(atom("arg:" + kind, lam(vs, ext, body)))

    def o_len(self, n, idx, env):
        return pa(atom("len", self.arg(n.args[0], env)))

    # -------------------------------------------------------------- loops
    def o_loopout(self, n, idx, env):
        return pa(atom("el", ("loop", self.loop(n, env)), tuple(idx)))

    def loopkey(self, n, env):
        """Canonical (name-independent) description of a loop slice."""
        lo, hi, iv, lv, comps = n.args
        plo, phi_ = self.el(lo, (), env), self.el(hi, (), env)
        inits = []
        for c in comps:
            inits.append(self.arg(c[1], env))
        return plo, phi_, inits

    def loop(self, n, env):
        key = ("loop", n.id, self.envkey(n, env))
        r = self.memo.get(key)
        if r is not None:
            return r
        lo, hi, iv, lv, comps = n.args
        plo, phi_, inits = self.loopkey(n, env)
        shift, plo, phi_ = plo, ZERO, padd(phi_, pscale(plo, -1))
        live = list(range(len(comps)))
        fixed = {}                      # loop-invariant carries: component -> initial value
        while True:
            r = self.loop_form(comps, inits, live, fixed, lv, iv, shift, plo, phi_, env)
            order, bodies, name = r
            dead = set()
            for j, i in enumerate(order):
                if comps[i][0] is not lv and isinstance(inits[i], (Poly, Lam)) and is_carry(bodies[j], name + (j,)):
                    fixed[i] = inits[i]
                    dead.add(i)
            if not dead:
                t = next(j for j, i in enumerate(order) if comps[i][0] is lv)
                seen, todo = {t}, [t]
                while todo:
                    for j in carries_in(bodies[todo.pop()], name):
                        if j not in seen and j < len(order):
                            seen.add(j)
                            todo.append(j)
                dead = {i for j, i in enumerate(order) if j not in seen}
            if not dead:
                break
            live = [i for i in live if i not in dead]
        r = (plo, phi_, t, tuple(inits[i] for i in order), tuple(bodies))
        self.memo[key] = r
        return r

    def loop_form(self, comps, inits, live, fixed, lv, iv, shift, plo, phi_, env):
        keys = {i: repr(akey(inits[i])) for i in live}
        base = H("loopname", plo.fp, phi_.fp, tuple(sorted(keys.values())))
        depth = self.active.count(base)
        nm.IV_HI[base] = phi_
        name = ("carry", base, depth)
        self.active.append(base)
        try:
            t = next(i for i in live if comps[i][0] is lv)
            order0 = sorted(live, key=lambda i: keys[i])
            groups = []
            for i in order0:
                if groups and keys[groups[-1][0]] == keys[i]:
                    groups[-1].append(i)
                else:
                    groups.append([i])
            best = None
            cands = [[]]
            for g in groups:
                perms = list(itertools.permutations(g)) if len(g) <= 3 else [tuple(g)]
                cands = [c + list(p) for c in cands for p in perms]
            for order in cands[:36]:
                env2 = dict(env)
                env2[iv] = padd(pa(atom("iv", base, depth)), shift)
                for i, v in fixed.items():
                    env2[comps[i][0]] = v
                for j, i in enumerate(order):
                    env2[comps[i][0]] = name + (j,)
                bodies = [self.arg(comps[i][2], env2) for i in order]
                k = (repr([akey(b) for b in bodies]), order.index(t))
                if best is None or k < best[0]:
                    best = (k, order, bodies)
            _, order, bodies = best
        finally:
            self.active.pop()
        return order, bodies, name

    def o_whileout(self, n, idx, env):
        cond, lv, comps = n.args
        name = ("wcarry", len(self.active))
        env2 = dict(env)
        order = sorted(range(len(comps)), key=lambda i: (comps[i][0] is not lv, repr(akey(self.arg(comps[i][1], env)))))
        self.active.append("w")
        for j, i in enumerate(order):
            env2[comps[i][0]] = name + (j,)
        r = (self.arg(cond, env2), tuple(self.arg(comps[i][1], env) for i in order), tuple(self.arg(comps[i][2], env2) for i in order))
        self.active.pop()
        return pa(atom("el", ("while", r), tuple(idx)))

    def o_loopys(self, n, idx, env):
        y, lo, hi, iv, comps = n.args
        name = ("ycarry", len(self.active))
        env2 = dict(env)
        order = sorted(range(len(comps)), key=lambda i: repr(akey(self.arg(comps[i][1], env))))
        self.active.append("y")
        env2[iv] = pa(atom("iv", "ys", len(self.active)))
        for j, i in enumerate(order):
            env2[comps[i][0]] = name + (j,)
        r = (self.arg(y, env2), self.el(lo, (), env), self.el(hi, (), env), tuple(self.arg(comps[i][1], env) for i in order), tuple(self.arg(comps[i][2], env2) for i in order))
        self.active.pop()
        return pa(atom("el", ("loopys", r), tuple(idx)))

    # -------------------------------------------------------------- randomness
    def o_choice(self, n, idx, env):
        return self.opaque(n, idx, env)

    # -------------------------------------------------------------- opaque kernels
    def row(self, x, i, env):
        """Lam of row i of the data behind x (array or Data object)."""
        if x.op == "obj":
            x = dict(x.args[1])["data"]
        s = shape(x)
        if s is None:
            return None
        v = fresh()
        if len(s) == 2:
            d = s[1]
            b = self.el(x, (ZERO if s[0] is n_ONE else i, ZERO if d is n_ONE else ix(v)), env)
        elif len(s) == 1:
            d = s[0]
            b = self.el(x, (ix(v),), env)
        else:
            d = n_ONE
            b = self.el(x, (), env)
        return lam([v], [self.dim(d, env)], b)

    def wts(self, x, i, env):
        if x.op == "obj":
            return self.el(dict(x.args[1])["weights"], (i,), env)
        return ONE

    def rows(self, x, env):
        if x.op == "obj":
            x = dict(x.args[1])["data"]
        s = shape(x)
        if s is None:
            return None
        return self.dim(s[0], env) if len(s) == 2 else ONE

    def o_m(self, n, idx, env):
        name, recv, args = n.args
        k = self.arg(recv, env)
        if name in ("compute", "compute_elementwise", "grad_x", "grad_y", "grad_x_elementwise", "grad_y_elementwise",
                    "divergence_x_grad_y", "divergence_x_grad_y_elementwise") and len(args) >= 2:
            ew = name.endswith("_elementwise")
            i, j = (ZERO, ZERO) if ew else (idx[0], idx[1])
            rest = idx if ew else idx[2:]
            x, y = self.row(args[0], i, env), self.row(args[1], j, env)
            if x is None or y is None:
                self.imprecise.append("kernel arg rank")
                return self.opaque(n, idx, env)
            base = name.replace("_elementwise", "")
            return kern(base, k, x, y, rest)
        if name == "compute_mean" and len(args) >= 3:
            x, y, ax = args[:3]
            rx, ry = self.rows(x, env), self.rows(y, env)
            if rx is None or ry is None:
                self.imprecise.append("kernel arg rank")
                return self.opaque(n, idx, env)
            v, w = fresh(), fresh()
            red0 = ax is n_NONE or ax is n_ZERO
            red1 = ax is n_NONE or ax is n_ONE
            if not (red0 or red1):
                return self.opaque(n, idx, env)
            it = iter(idx)
            i = ix(v) if red0 else next(it)
            j = ix(w) if red1 else next(it)
            e = kern("compute", k, self.row(x, i, env), self.row(y, j, env), ())
            nrm = lambda p: self.nan0(p)
            if red0:
                u = fresh()
                e = psum(pmul(nrm(pmul(self.wts(x, i, env), ppow(psum(self.wts(x, ix(u), env), u, rx), -1))), e), v, rx)
            if red1:
                u = fresh()
                e = psum(pmul(nrm(pmul(self.wts(y, j, env), ppow(psum(self.wts(y, ix(u), env), u, ry), -1))), e), w, ry)
            return e
        if name == "gramian_row_mean":
            x = args[0]
            if x.op != "obj":
                a = (self.arg(x, env), "ones")
            else:
                d = dict(x.args[1])
                a = (self.arg(d["data"], env), self.arg(d["weights"], env))
            return pa(atom("gramian_row_mean", k, a, tuple(idx)))
        return self.opaque(n, idx, env)

    # -------------------------------------------------------------- derivatives
    def o_deriv(self, n, idx, env):
        kind, body, dvs, args = n.args
        if kind == "grad" and len(dvs) == 1 and len(idx) == 1 and shape(body) == ():
            r = self.derivative(body, dvs[0], args[0], idx[0], env)
            if r is not None:
                return r
        if kind == "jac" and len(dvs) == 1 and shape(body) is not None and len(shape(body)) + 1 == len(idx):
            r = self.derivative(body, dvs[0], args[0], idx[-1], env, idx[:-1])
            if r is not None:
                return r
        env2 = dict(env)
        names = []
        for v in dvs:
            env2[v] = ("dv", "cl%d" % len(self.active), str(v.args[1]), str(v.args[2]))
        return pa(atom("op:deriv", kind, self.arg(body, env2), tuple(self.arg(a, env) for a in args), tuple(idx)))

    def derivative(self, body, dv, arg_, i, env, bidx=()):
        name = ("dv", "tmp%d" % nm._fresh[0])
        fresh()
        env2 = dict(env)
        env2[dv] = name
        try:
            p = self.el(body, tuple(bidx), env2)
            d = diff(p, name, i)
        except NoDiff:
            return None
        return replace_array(d, name, lambda j: self.el(arg_, j, env))

    def o_jvp(self, n, idx, env):
        body, dvs, prims, tans = n.args
        env2 = dict(env)
        for v in dvs:
            env2[v] = ("dv", "cl%d" % len(self.active), str(v.args[1]), str(v.args[2]))
        return pa(atom("op:jvp", self.arg(body, env2), tuple(self.arg(a, env) for a in prims), tuple(self.arg(a, env) for a in tans), tuple(idx)))

    def o_app(self, n, idx, env):
        f = self.arg(n.args[0], env)
        args = [self.arg(a, env) for a in n.args[1]]
        return lift([tuple(args)], lambda q: pa(atom("op:app", (f, q[0]) + tuple(self.arg(a, env) for a in n.args[2:]), tuple(idx))))


_fi_cache = {}


def free_inds(x):
    """Indicator atoms inside x that do not depend on bound indices."""
    if isinstance(x, Poly):
        out = frozenset()
        for m in x.t:
            for a, _ in m.f:
                out |= free_inds(a)
        return out
    if isinstance(x, Lam):
        return free_inds(x.body)
    if isinstance(x, tuple):
        out = frozenset()
        for y in x:
            out |= free_inds(y)
        return out
    if isinstance(x, Atom):
        if x.head == "ix":
            return frozenset()
        r = _fi_cache.get(x.id)
        if r is None:
            r = free_inds(x.args)
            if x.ind and all(n[0] == "t" for n in x.names):
                r |= {x}
            _fi_cache[x.id] = r
        return r
    return frozenset()


def lift(args, build, depth=3):
    """build(args) with the guards inside args moved outside (case distinction)."""
    if depth:
        fi = free_inds(tuple(args))
        if fi:
            a = min(fi, key=lambda q: q.res)
            hi = lift([map_any(x, lambda q: ONE if q is a else None) for x in args], build, depth - 1)
            lo = lift([map_any(x, lambda q: ZERO if q is a else None) for x in args], build, depth - 1)
            if hi.fp == lo.fp:
                return hi
            return padd(pmul(pa(a), hi), pmul(psub(ONE, pa(a)), lo))
    return build(args)


def kern(base, k, x, y, rest):
    """Opaque symmetric kernel atoms."""
    return lift([x, y], lambda q: _kern(base, k, q[0], q[1], rest))


def _kern(base, k, x, y, rest):
    if base == "compute":
        if y.fp < x.fp:
            x, y = y, x
        return pa(atom("K:" + base, k, x, y))
    if base == "divergence_x_grad_y":
        w = fresh()
        return psum(kern("mixed", k, x, y, (ix(w), ix(w))), w, x.ext[0])
    if base == "mixed":
        # d2 k(x, y) / dx_i dy_j
        if y.fp < x.fp:
            x, y, rest = y, x, tuple(reversed(rest))
        return pa(atom("K:mixed", k, x, y, tuple(rest)))
    if base == "grad_y":
        base, x, y = "grad_x", y, x
    return pa(atom("K:" + base, k, x, y, tuple(rest)))


_old_rebuild = nm.rebuild


def _rebuild(head, args, ind):
    if head.startswith("K:"):
        return kern(head[2:], args[0], args[1], args[2], args[3] if len(args) > 3 else ())
    return _old_rebuild(head, args, ind)


nm.rebuild = _rebuild


# ------------------------------------------------------------------ atom replacement
def map_atoms(p, fn):
    """Rebuild p, replacing atoms for which fn returns a Poly (bottom-up)."""
    return map_any(p, fn)


def map_any(p, fn, tf=None):
    memo = {}

    def onp(q):
        out = []
        for m, c in q.t.items():
            f, b, k = open_mono(m)
            c = c * k
            r = ONE
            keep = {}
            for a, e in f.items():
                x = ona(a)
                if isinstance(x, Atom):
                    keep[x] = keep.get(x, F0) + e
                else:
                    r = pmul(r, ppow(x, e))
            b = [(v, onp(x)) for v, x in b]
            out.append(pscale(nm._distribute(keep, b, r) if r is not ONE else close_mono(keep, b), c))
        return padd(*out)

    def onany(x):
        if isinstance(x, Poly):
            return onp(x)
        if isinstance(x, Lam):
            vs = [fresh() for _ in x.vars]
            b = onp(rename(x.body, {v: ix(w) for v, w in zip(x.vars, vs)}))
            return lam(vs, [onp(e) for e in x.ext], b)
        if isinstance(x, tuple):
            if tf is not None:
                r = tf(x)
                if r is not None:
                    return r
            return tuple(onany(y) for y in x)
        return x

    def ona(a):
        if a.head == "ix":
            r = fn(a)
            return a if r is None else nm._as_atom(r)
        k = memo.get(a.id)
        if k is not None:
            return k
        r = fn(a)
        if r is None:
            args = tuple(onany(x) for x in a.args)
            if akey(args) != akey(a.args):
                r = nm.rebuild(a.head, list(args), a.ind)
                r = nm._as_atom(r)
            else:
                r = a
        else:
            r = nm._as_atom(r)
        memo[a.id] = r
        return r
    return onany(p)


def replace_atom(p, a, val):
    return map_atoms(p, lambda x: val if x is a else None)


def replace_array(p, name, fn):
    """Replace every element read of array 'name' by fn(index polys)."""
    hit = [False]

    def f(a):
        if a.head == "el" and a.args[0] == name:
            return fn(a.args[1])
        return None
    return map_atoms(p, f)


# ------------------------------------------------------------------ differentiation
class NoDiff(Exception):
    pass


def mentions(a, name):
    if isinstance(a, Poly):
        return any(mentions(x, name) for m in a.t for x, _ in m.f) or any(mentions(x, name) for m in a.t for _, x in m.b)
    if isinstance(a, Lam):
        return mentions(a.body, name) or any(mentions(x, name) for x in a.ext)
    if isinstance(a, Atom):
        if a.head == "el" and a.args[0] == name:
            return True
        return any(mentions(x, name) for x in a.args)
    if isinstance(a, tuple):
        return (isinstance(name, tuple) and a == name) or any(mentions(x, name) for x in a)
    return False


def diff(p, name, i):
    """d p / d name[i]"""
    out = ZERO
    for m, c in p.t.items():
        f, b, k = open_mono(m)
        c = c * k
        for a, e in f.items():
            if not mentions(a, name):
                continue
            da = diff_atom(a, name, i)
            rest = dict(f)
            rest[a] = e - 1
            if rest[a] == 0:
                del rest[a]
            q = pscale(nm._distribute(rest, b, da), c * e)
            out = padd(out, q)
    return out


def diff_atom(a, name, i):
    if a.head == "el" and a.args[0] == name:
        idx = a.args[1]
        if len(idx) != 1:
            raise NoDiff()
        return ind_eq(idx[0], i)
    if a.head == "exp":
        return pmul(pa(a), diff(a.args[0], name, i))
    if a.head == "sin":
        return pmul(pfn("cos", a.args[0]), diff(a.args[0], name, i))
    if a.head == "cos":
        return pscale(pmul(pfn("sin", a.args[0]), diff(a.args[0], name, i)), -1)
    if a.head == "P":
        return diff(a.args[0], name, i)
    if a.head == "powm":
        b, e = a.args
        if mentions(e, name):
            raise NoDiff()
        return pmul(e, pa(a), ppow(b, -1), diff(b, name, i))
    if a.head == "sign":
        return ZERO
    if a.head == "fn" and a.args[0] == "log":
        return pmul(ppow(a.args[1], -1), diff(a.args[1], name, i))
    if a.head in ("K:compute", "K:grad_x"):
        if a.head == "K:grad_x":
            k, x, y, (r,) = a.args
            if mentions(x, name) or mentions(r, name):
                raise NoDiff()
            j = fresh()
            return psum(pmul(kern("mixed", k, x, y, (r, ix(j))), diff(lam_apply(y, (ix(j),)), name, i)), j, y.ext[0])
        k, x, y = a.args
        out = ZERO
        for u, w in ((x, y), (y, x)):
            if mentions(u, name):
                j = fresh()
                uj = lam_apply(u, (ix(j),))
                out = padd(out, psum(pmul(kern("grad_x", k, u, w, (ix(j),)), diff(uj, name, i)), j, u.ext[0]))
        return out
    if a.ind:
        return ZERO
    raise NoDiff()
