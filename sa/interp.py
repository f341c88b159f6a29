"""Abstract interpreter: Python AST -> gated value graph (no code is executed)."""
import ast
import sys
from fractions import Fraction

from .nodes import *
from . import nodes as nd
from .ops import *
from . import ops
from .loader import ClassInfo, Package, is_overload

sys.setrecursionlimit(20000)


class Env:
    __slots__ = ("vars", "parent", "module")

    def __init__(self, parent=None, module=None):
        self.vars, self.parent = {}, parent
        self.module = module if module is not None else (parent.module if parent else None)

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None

    def copy(self):
        e = Env(self.parent, self.module)
        e.vars = dict(self.vars)
        return e


class Clo:
    """Closure payload."""
    __slots__ = ("node", "env", "cls", "self_", "name")

    def __init__(self, node, env, cls=None, self_=None, name=None):
        self.node, self.env, self.cls, self.self_ = node, env, cls, self_
        self.name = name or getattr(node, "name", "<lambda>")

    def _k(self):
        return (id(self.node), id(self.env), None if self.self_ is None else self.self_.id, id(self.cls))

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return isinstance(o, Clo) and self._k() == o._k()


class MutObj:
    """Object under construction."""
    def __init__(self, cls):
        self.cls, self.fields = cls, {}


class Unknown(Exception):
    pass


_unk_count = [0]


def unk(reason):
    _unk_count[0] += 1
    return raw("unk", reason, _unk_count[0])


IDENTITY_DECOS = {
    "jax.jit", "equinox.filter_jit", "jaxtyping.jaxtyped", "typing.override", "typing_extensions.override",
    "abc.abstractmethod", "functools.wraps", "functools.lru_cache_", "typing.no_type_check", "jax.checkpoint",
    "flax.linen.compact", "builtins.staticmethod", "builtins.classmethod", "builtins.property",
    "jax.custom_jvp", "typing.final", "typing_extensions.final", "jax.named_call", "typing.cast",
}


class Interp:
    def __init__(self, pkg, recursion=3):
        self.pkg = pkg
        self.events = []
        self.path = []
        self.level = 0
        self.callstack = []
        self.facts = {}
        self.recursion = recursion
        self.steps = 0
        self.functions = set()
        self.opaque_methods = {}
        self.float_logs, self.log_differences = set(), set()
        self.hooks = {}          # qualname -> python callable(interp, args, kwargs) (contracts)
        from . import ext
        self.ext = ext

    # ------------------------------------------------------------- events
    def event(self, kind, **kw):
        kw.update(kind=kind, loc=CUR_LOC[0], path=tuple(self.path), stack=tuple(self.callstack))
        self.events.append(kw)

    # ------------------------------------------------------------- names
    def module_env(self, mod):
        if mod.env is None:
            mod.env = Env(None, mod)
        return mod.env

    def lookup_module(self, mod, name):
        env = self.module_env(mod)
        if name in env.vars:
            return env.vars[name]
        b = mod.bind.get(name)
        if b is None:
            return None
        if b[0] == "func":
            v = self.make_function(b[1], env)
        elif b[0] == "class":
            v = raw("cls", self.pkg.classes[mod.name + "." + name])
        elif b[0] == "mod":
            v = raw("mod", b[1])
        elif b[0] == "from":
            v = self.import_from(b[1], b[2])
        elif b[0] == "assign":
            env.vars[name] = unk("recursive module constant")
            v = self.eval(b[1], env)
        elif b[0] == "assign_item":
            v = index(self.eval(b[1], env), (C(b[2]),))
        env.vars[name] = v
        return v

    def import_from(self, modname, name):
        m = self.pkg.modules.get(modname)
        if m is not None:
            v = self.lookup_module(m, name)
            if v is not None:
                return v
            if modname + "." + name in self.pkg.modules:
                return raw("mod", modname + "." + name)
        return self.ext_value(modname + "." + name)

    def ext_value(self, dotted):
        if dotted in self.ext.CONSTS:
            return self.ext.CONSTS[dotted]
        if dotted in self.ext.MODULES:
            return raw("mod", dotted)
        return raw("ext", dotted)

    def name(self, ident, env):
        v = env.get(ident)
        if v is not None:
            return v
        if env.module is not None:
            v = self.lookup_module(env.module, ident)
            if v is not None:
                return v
        if ident in ("True", "False", "None"):
            return {"True": TRUE, "False": FALSE, "None": NONE}[ident]
        return self.ext_value("builtins." + ident)

    # ------------------------------------------------------------- functions / classes
    def make_function(self, fdef, env, cls=None):
        f = raw("clo", Clo(fdef, env, cls))
        for d in reversed(fdef.decorator_list):
            f = self.decorate(d, f, env)
        return f

    def deco_name(self, d, env):
        t = d.func if isinstance(d, ast.Call) else d
        try:
            v = self.eval(t, env)
        except Exception:
            return None
        return v.args[0] if v.op == "ext" else None

    def decorate(self, d, f, env):
        nm = self.deco_name(d, env)
        if nm in IDENTITY_DECOS:
            return f
        if nm == "functools.partial" and isinstance(d, ast.Call) and d.args:
            inner = self.deco_name(d.args[0], env)
            if inner in IDENTITY_DECOS:
                return f
        if nm in ("typing.overload", "typing_extensions.overload"):
            return f
        return self.call(self.eval(d, env), [f], {})

    def method_kind(self, fdef):
        for d in fdef.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
            if n in ("property", "cached_property", "abstractproperty"):
                return "property"
            if n in ("staticmethod", "classmethod"):
                return n
        return "method"

    def bind_method(self, recv, cls, fdef):
        """Bound method node (decorators applied around the bound closure)."""
        env = self.module_env(cls.module)
        k = self.method_kind(fdef)
        if k == "staticmethod":
            f = raw("clo", Clo(fdef, env, cls))
        elif k == "classmethod":
            c = recv if recv.op == "cls" else raw("cls", self.class_of(recv))
            f = raw("clo", Clo(fdef, env, cls, c))
        else:
            f = raw("clo", Clo(fdef, env, cls, recv))
        for d in reversed(fdef.decorator_list):
            nm = self.deco_name(d, env)
            if nm in IDENTITY_DECOS or nm is None:
                continue
            if nm in ("typing.overload", "typing_extensions.overload"):
                continue
            f = self.decorate(d, f, env)
        return f

    def class_of(self, n):
        if n.op == "obj":
            return self.pkg.classes.get(n.args[0])
        if n.op == "mutobj":
            return n.args[0].cls
        if n.op == "sym" and isinstance(n.args[1], ClassInfo):
            return n.args[1]
        if n.op in ("attr", "with") :
            k = nd.SHAPES.get(("kind", n.id))
            return k
        if n.op == "pobj":
            return self.class_of(n.args[1])
        return None

    def construct(self, cls, args, kwargs):
        if cls.qual in self.hooks:
            return self.hooks[cls.qual](self, args, kwargs)
        if any(isinstance(b, str) and b.split(".")[-1] in ("Exception", "Warning", "ValueError", "TypeError") for b in cls.mro()):
            return raw("exc", cls.name)
        if any(isinstance(b, str) and ("flax" in b or b.endswith("linen.Module")) for b in cls.mro()):
            return raw("extobj", cls.qual, tuple(args), tuple(sorted(kwargs.items())))
        m = MutObj(cls)
        selfn = raw("mutobj", m)
        fields = cls.all_fields()
        init = cls.find("__init__")
        if init is not None:
            c, fdef = init
            self.call(self.bind_method(selfn, c, fdef), args, kwargs)
        else:
            names = [f for f in fields if not self.field_opt(fields[f], "init_false")]
            kw = dict(kwargs)
            for n_, a in zip(names, args):
                kw[n_] = a
            for f in names:
                if f in kw:
                    m.fields[f] = kw[f]
        for f, (c, ann, dflt) in fields.items():
            if f not in m.fields:
                m.fields[f] = self.field_default(c, dflt)
        for f, (c, ann, dflt) in fields.items():
            conv = self.field_converter(c, dflt)
            if conv is not None and m.fields[f] is not BOT:
                m.fields[f] = self.call(conv, [m.fields[f]], {})
        post = cls.find("__post_init__")
        if post is not None and init is None:
            self.call(self.bind_method(selfn, *post), [], {})
        n = obj(cls.qual, [(f, m.fields[f]) for f in list(fields) + [x for x in m.fields if x not in fields]])
        for c in reversed(cls.mro()):
            if isinstance(c, ClassInfo) and "__check_init__" in c.methods:
                self.call(self.bind_method(n, c, c.methods["__check_init__"]), [], {})
        return n

    def field_call(self, c, dflt):
        if isinstance(dflt, ast.Call):
            f = dflt.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm == "field":
                return {k.arg: k.value for k in dflt.keywords}
        return None

    def field_opt(self, fld, what):
        c, ann, dflt = fld
        kw = self.field_call(c, dflt)
        return bool(kw and "init" in kw and isinstance(kw["init"], ast.Constant) and kw["init"].value is False)

    def field_static(self, cls, name):
        c, ann, dflt = cls.all_fields()[name]
        kw = self.field_call(c, dflt)
        return bool(kw and "static" in kw and isinstance(kw["static"], ast.Constant) and kw["static"].value)

    def field_default(self, c, dflt):
        env = self.module_env(c.module)
        kw = self.field_call(c, dflt)
        if kw is not None:
            if "default" in kw:
                return self.eval(kw["default"], env)
            if "default_factory" in kw:
                return self.call(self.eval(kw["default_factory"], env), [], {})
            return BOT
        if dflt is None:
            return BOT
        return self.eval(dflt, env)

    def field_converter(self, c, dflt):
        kw = self.field_call(c, dflt)
        if kw and "converter" in kw:
            return self.eval(kw["converter"], self.module_env(c.module))
        return None

    # ------------------------------------------------------------- calling
    def bind_args(self, fargs, args, kwargs, env, selfn=None):
        """Bind call arguments to an ast.arguments; returns dict name -> node."""
        out = {}
        pos = [a.arg for a in fargs.posonlyargs + fargs.args]
        args = list(args)
        if selfn is not None:
            args = [selfn] + args
        kw = dict(kwargs)
        for n_, a in zip(pos, args):
            out[n_] = a
        extra = args[len(pos):]
        if fargs.vararg:
            out[fargs.vararg.arg] = tup(*extra)
        for n_ in pos[len(args):]:
            if n_ in kw:
                out[n_] = kw.pop(n_)
        dflts = fargs.defaults
        for n_, d in zip(pos[len(pos) - len(dflts):], dflts):
            if n_ not in out:
                out[n_] = self.eval(d, env)
        for a, d in zip(fargs.kwonlyargs, fargs.kw_defaults):
            if a.arg in kw:
                out[a.arg] = kw.pop(a.arg)
            elif d is not None:
                out[a.arg] = self.eval(d, env)
        if fargs.kwarg:
            out[fargs.kwarg.arg] = raw("dict", tuple((C(k), v) for k, v in kw.items() if k not in out))
        return out

    def call_clo(self, clo, args, kwargs):
        node = clo.node
        depth = sum(1 for f in self.callstack if f is node)
        if depth > self.recursion:
            return BOT
        self.steps += 1
        if len(self.callstack) > 120:
            return unk("call depth")
        hook = self.hooks.get((clo.cls.qual + "." if clo.cls else "") + clo.name) if clo.name != "<lambda>" else None
        if hook is not None:
            r = hook(self, ([clo.self_] if clo.self_ is not None else []) + list(args), kwargs)
            if r is not None:
                return r
        env = Env(clo.env)
        bound_ = self.bind_args(node.args, args, kwargs, clo.env, clo.self_)
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if a.arg not in bound_:
                bound_[a.arg] = unk("missing argument " + a.arg)
        env.vars.update(bound_)
        if clo.cls is not None:
            env.vars["__class__"] = raw("cls", clo.cls)
            if clo.self_ is not None:
                env.vars["__self__"] = clo.self_
        saved = CUR_LOC[0]
        self.callstack.append(node)
        if isinstance(node, ast.FunctionDef):
            self.functions.add((clo.env.module.path if clo.env.module else "?", (clo.cls.name + "." if clo.cls else "") + node.name))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_generator(node):
                return unk("generator")
            return self.outcome_value(self.exec_block(node.body, env))
        finally:
            self.callstack.pop()
            CUR_LOC[0] = saved

    def outcome_value(self, o):
        if o[0] == "ret":
            return o[1]
        if o[0] == "fall":
            return NONE
        if o[0] == "branch":
            return phi(o[1], self.outcome_value(o[2]), self.outcome_value(o[3]))
        if o[0] == "raise":
            return BOT
        return unk("loop control")

    def call(self, f, args, kwargs):
        if any(a is BOT for a in args) and f.op != "clo":
            return BOT
        op = f.op
        if op == "clo":
            return self.call_clo(f.args[0], args, kwargs)
        if op == "cls":
            return self.construct(f.args[0], args, kwargs)
        if op == "phi":
            c = f.args[0]
            self.path.append(c)
            a = self.call(f.args[1], args, kwargs)
            self.path[-1] = lnot(c)
            b = self.call(f.args[2], args, kwargs)
            self.path.pop()
            return phi(c, a, b)
        if op == "partial":
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw)
        if op == "vmapped":
            return self.vmap(f.args[0], f.args[1], f.args[2], args, kwargs)
        if op == "derivf":
            return self.deriv(f, args, kwargs)
        if op == "ext":
            return self.ext.call(self, f.args[0], args, kwargs)
        if op == "bmeth":
            return self.call_method(f.args[0], f.args[1], args, kwargs)
        if op == "atmeth":
            return self.ext.at_update(self, f.args[0], f.args[1], f.args[2], args)
        if op == "pobj":
            return self.call(f.args[1], args, kwargs)
        if op == "obj":
            c = self.class_of(f)
            m = c.find("__call__") if c else None
            if m:
                return self.call(self.bind_method(f, *m), args, kwargs)
        if op == "bot":
            return BOT
        if op == "unk":
            return unk("call of unknown")
        if op == "attr" and f.args[1] == "run" and f.args[0].op == "extcall" and str(f.args[0].args[0]).endswith("OSQP"):
            r = self.ext.osqp(self, f.args[0], args, kwargs)
            if r is not None:
                return r
        if op == "attr" and f.args[1] == "get_arrays" and f.args[0].op == "extcall" and str(f.args[0].args[0]) in self.ext.TREES:
            r = self.ext.tree_arrays(self, f.args[0])
            if r is not None:
                return r
        return raw("app", f, tuple(args), tuple(sorted(kwargs.items())))

    def call_method(self, recv, name, args, kwargs):
        """Method call on an opaque instance or array term."""
        cls = self.class_of(recv)
        if cls is not None:
            m = cls.find(name)
            if m is not None:
                c, fdef = m
                env = self.module_env(c.module)
                b = self.bind_args(fdef.args, args, kwargs, env, recv)
                names = [a.arg for a in fdef.args.posonlyargs + fdef.args.args + fdef.args.kwonlyargs]
                vals = [b[n_] for n_ in names[1:] if n_ in b]
                return raw("m", name, recv, tuple(vals))
        r = self.ext.array_method(self, recv, name, args, kwargs)
        if r is not None:
            return r
        return raw("mext", name, recv, tuple(args), tuple(sorted(kwargs.items())))

    # ------------------------------------------------------------- pytrees
    def flatten(self, n):
        """-> (leaves, rebuild(list)->node)"""
        if n.op in ("tuple", "list"):
            parts = [self.flatten(a) for a in n.args]
            leaves = [l for p in parts for l in p[0]]

            def rb(xs, parts=parts, op=n.op):
                out, i = [], 0
                for ls, r in parts:
                    out.append(r(xs[i:i + len(ls)]))
                    i += len(ls)
                return raw(op, *out)
            return leaves, rb
        if n.op == "dict":
            ks = [k for k, _ in n.args[0]]
            parts = [self.flatten(v) for _, v in n.args[0]]
            leaves = [l for p in parts for l in p[0]]

            def rbd(xs):
                out, i = [], 0
                for k, (ls, r) in zip(ks, parts):
                    out.append((k, r(xs[i:i + len(ls)])))
                    i += len(ls)
                return raw("dict", tuple(out))
            return leaves, rbd
        if n.op == "obj":
            cls = self.class_of(n)
            fs = n.args[1]
            parts = []
            for k, v in fs:
                static = cls is not None and k in cls.all_fields() and self.field_static(cls, k)
                parts.append((k, ([], (lambda v: (lambda xs: v))(v)) if static else self.flatten(v)))
            leaves = [l for _, p in parts for l in p[0]]

            def rbo(xs, q=n.args[0]):
                out, i = [], 0
                for k, (ls, r) in parts:
                    out.append((k, r(xs[i:i + len(ls)])))
                    i += len(ls)
                return obj(q, out)
            return leaves, rbo
        if n is NONE:
            return [], (lambda xs: NONE)
        return [n], (lambda xs: xs[0])

    def tree_map(self, f, trees, is_leaf=None):
        n = trees[0]
        if is_leaf is not None and is_leaf is not NONE:
            t = self.truth(self.call(is_leaf, [n], {}), record=False)
            if t is TRUE:
                return self.call(f, trees, {})
        if n.op in ("tuple", "list"):
            return raw(n.op, *[self.tree_map(f, [n.args[i]] + [index(t, (C(i),)) for t in trees[1:]], is_leaf) for i in range(len(n.args))])
        if n.op == "obj":
            cls = self.class_of(n)
            out = []
            for k, v in n.args[1]:
                if cls is not None and k in cls.all_fields() and self.field_static(cls, k):
                    out.append((k, v))
                else:
                    out.append((k, self.tree_map(f, [v] + [self.getattr(t, k) for t in trees[1:]], is_leaf)))
            return obj(n.args[0], out)
        if n.op == "dict":
            return raw("dict", tuple((k, self.tree_map(f, [v], is_leaf)) for k, v in n.args[0]))
        if n is NONE:
            return NONE
        if n.op == "phi" and any(a.op in ("obj", "tuple", "list") for a in n.args[1:]):
            return phi(n.args[0], self.tree_map(f, [n.args[1]] + trees[1:], is_leaf), self.tree_map(f, [n.args[2]] + trees[1:], is_leaf))
        return self.call(f, trees, {})

    def tree_at(self, where_f, tree, replace):
        paths = self.call(where_f, [raw("pobj", (), tree)], {})
        ps = [paths]
        reps = [replace]
        if paths.op in ("tuple", "list"):
            ps = list(paths.args)
            reps = list(replace.args) if replace.op in ("tuple", "list") else [replace]
        out = tree
        for p, r in zip(ps, reps):
            if p.op != "pobj":
                return unk("tree_at path")
            out = self.set_path(out, p.args[0], r)
        return out

    def set_path(self, n, path, v):
        if not path:
            return v
        h, rest = path[0], path[1:]
        if n.op == "obj":
            fs = [(k, self.set_path(x, rest, v) if k == h else x) for k, x in n.args[1]]
            return obj(n.args[0], fs)
        if n.op in ("tuple", "list") and isinstance(h, int):
            return raw(n.op, *[self.set_path(x, rest, v) if i == h else x for i, x in enumerate(n.args)])
        if n.op == "phi":
            return phi(n.args[0], self.set_path(n.args[1], path, v), self.set_path(n.args[2], path, v))
        if n is BOT:
            return BOT
        r = raw("with", n, h, self.set_path(self.getattr(n, h), rest, v))
        k = self.class_of(n)
        if k is not None:
            nd.SHAPES[("kind", r.id)] = k
        return r

    # ------------------------------------------------------------- vmap, loops, derivatives
    def vmap(self, f, in_axes, out_axes, args, kwargs):
        L = self.level
        specs = []
        if in_axes.op in ("tuple", "list"):
            specs = list(in_axes.args) + [ZERO] * (len(args) - len(in_axes.args))
        else:
            specs = [in_axes] * len(args)
        mapped, extent = [], None
        flat = []
        for a, s in zip(args, specs):
            leaves, rb = self.flatten(a)
            flat.append((leaves, rb, s))
            if s is not NONE:
                for l in leaves:
                    mapped.append(l)
                    sh = shape(l)
                    if extent is None and sh is not None and s.op == "num" and len(sh) > int(s.args[0]):
                        extent = sh[int(s.args[0])]
        if any(m is BOT for m in mapped):
            return BOT
        if extent is None:
            extent = raw("len", mapped[0]) if mapped else unk("vmap extent")
        v = raw("vi", L, extent, tuple(mapped))
        new = []
        for leaves, rb, s in flat:
            if s is NONE:
                new.append(rb(leaves))
            else:
                ax = int(s.args[0]) if s.op == "num" else 0
                new.append(rb([index(l, (FULL,) * ax + (v,)) for l in leaves]))
        self.level += 1
        try:
            r = self.call(f, new, kwargs)
        finally:
            self.level -= 1
        leaves, rb = self.flatten(r)
        if out_axes.op in ("tuple", "list"):
            oax = ZERO
        else:
            oax = out_axes if out_axes.op == "num" else ZERO
        return rb([BOT if l is BOT else stack(l, v, extent, oax) for l in leaves])

    def fori(self, lo, hi, body, init):
        L = self.level
        leaves, rb = self.flatten(init)
        if any(l is BOT for l in leaves):
            return BOT
        iv = raw("iv", L, lo, hi)
        lvs = self.carry_vars(L, leaves)
        self.level += 1
        try:
            r = self.call(body, [iv, rb(lvs)], {})
        finally:
            self.level -= 1
        outs, _ = self.flatten(r)
        if r is BOT or len(outs) != len(leaves):
            return rb([unk("carry structure")] * len(leaves))
        return rb(self.close_loop(lo, hi, iv, lvs, leaves, outs))

    def carry_vars(self, L, leaves):
        occ = {}
        lvs = []
        for l in leaves:
            k = occ.get(l.id, 0)
            occ[l.id] = k + 1
            lvs.append(raw("lv", L, l, k))
        return lvs

    def close_loop(self, lo, hi, iv, lvs, inits, outs, ys=None, cond=None):
        # remove loop-invariant carries to a fixed point
        outs = list(outs)
        live = {i: True for i in range(len(lvs))}
        changed = True
        mapping = {}
        while changed:
            changed = False
            for i, (v, o) in enumerate(zip(lvs, outs)):
                if live[i] and o is v:
                    live[i] = False
                    mapping[v] = inits[i]
                    changed = True
            if changed and mapping:
                outs = [subst(o, mapping) if live[i] else o for i, o in enumerate(outs)]
                if ys is not None:
                    ys = [subst(y, mapping) for y in ys]
                if cond is not None:
                    cond = subst(cond, mapping)
        comps = tuple((lvs[i], inits[i], outs[i]) for i in range(len(lvs)) if live[i])
        res = []
        for i in range(len(lvs)):
            if not live[i]:
                res.append(inits[i])
            elif cond is not None:
                res.append(whileout(cond, lvs[i], comps))
            else:
                res.append(loopout(lo, hi, iv, lvs[i], comps))
        if ys is not None:
            yo = []
            for y in ys:
                if any(c[0] in support(y) for c in comps):
                    yo.append(raw("loopys", y, lo, hi, iv, comps))
                else:
                    yo.append(stack(y, iv, hi))
            return res, yo
        return res

    def scan(self, f, init, xs, length_=None):
        L = self.level
        leaves, rb = self.flatten(init)
        xl, xrb = self.flatten(xs)
        hi = None
        for l in xl:
            sh = shape(l)
            if sh:
                hi = sh[0]
                break
        if hi is None:
            hi = length_ if length_ is not None and length_ is not NONE else (raw("len", xl[0]) if xl else unk("scan length"))
        iv = raw("iv", L, ZERO, hi)
        lvs = self.carry_vars(L, leaves)
        self.level += 1
        try:
            r = self.call(f, [rb(lvs), xrb([index(l, (iv,)) for l in xl])], {})
        finally:
            self.level -= 1
        its = self.iterate(r)
        if its is None or len(its) != 2:
            return tup(unk("scan"), unk("scan"))
        outs, _ = self.flatten(its[0])
        yl, yrb = self.flatten(its[1])
        if len(outs) != len(leaves):
            return tup(unk("scan"), unk("scan"))
        res, yo = self.close_loop(ZERO, hi, iv, lvs, leaves, outs, ys=yl)
        return tup(rb(res), yrb(yo))

    def while_loop(self, cond, body, init):
        L = self.level
        leaves, rb = self.flatten(init)
        lvs = self.carry_vars(L, leaves)
        self.level += 1
        try:
            c = self.call(cond, [rb(lvs)], {})
            r = self.call(body, [rb(lvs)], {})
        finally:
            self.level -= 1
        outs, _ = self.flatten(r)
        if len(outs) != len(leaves):
            return rb([unk("while")] * len(leaves))
        return rb(self.close_loop(None, None, None, lvs, leaves, outs, cond=c))

    def deriv(self, f, args, kwargs):
        kind, fn, argnums = f.args[0], f.args[1], f.args[2]
        L = self.level
        nums = [int(argnums.args[0])] if argnums.op == "num" else [int(a.args[0]) for a in argnums.args]
        dvs = []
        new = list(args)
        for k in nums:
            leaves, rb = self.flatten(args[k])
            vs = []
            for j, l in enumerate(leaves):
                v = raw("dv", L, k, j, l)
                set_shape(v, shape(l))
                vs.append(v)
            dvs.extend(zip(vs, leaves))
            new[k] = rb(vs)
        self.level += 1
        try:
            body = self.call(fn, new, kwargs)
        finally:
            self.level -= 1
        d = raw("deriv", kind, body, tuple(v for v, _ in dvs), tuple(a for _, a in dvs))
        if kind == "grad" and len(dvs) == 1:
            set_shape(d, shape(dvs[0][1]))
        elif kind in ("jac", "jacfwd", "jacrev") and len(dvs) == 1 and shape(body) is not None and shape(dvs[0][1]) is not None:
            set_shape(d, shape(body) + shape(dvs[0][1]))
        if kind == "value_and_grad":
            val = subst(body, dict(dvs))
            return tup(val, raw("deriv", "grad", body, tuple(v for v, _ in dvs), tuple(a for _, a in dvs)))
        return d

    def jvp(self, fn, prims, tans):
        L = self.level
        dvs = []
        for k, p in enumerate(prims):
            v = raw("dv", L, k, 0, p)
            set_shape(v, shape(p))
            dvs.append(v)
        self.level += 1
        try:
            body = self.call(fn, list(dvs), {})
        finally:
            self.level -= 1
        val = subst(body, dict(zip(dvs, prims)))
        d = raw("jvp", body, tuple(dvs), tuple(prims), tuple(tans))
        set_shape(d, shape(body))
        return tup(val, d)

    # ------------------------------------------------------------- attributes
    def getattr(self, n, name):
        op = n.op
        if n is BOT:
            return BOT
        if op == "phi":
            return phi(n.args[0], self.getattr(n.args[1], name), self.getattr(n.args[2], name))
        if op == "mod":
            full = n.args[0] + "." + name
            if n.args[0] in self.pkg.modules:
                v = self.lookup_module(self.pkg.modules[n.args[0]], name)
                if v is not None:
                    return v
            if full in self.pkg.modules:
                return raw("mod", full)
            return self.ext_value(full)
        if op == "ext":
            return self.ext_value(n.args[0] + "." + name)
        if op == "pobj":
            path, real = n.args
            if real.op == "obj":
                d = obj_fields(real)
                if name in d:
                    return raw("pobj", path + (name,), d[name])
                cls = self.class_of(real)
                m = cls.find(name) if cls else None
                if m and self.method_kind(m[1]) == "property":
                    return self.call(raw("clo", Clo(m[1], self.module_env(m[0].module), m[0], n)), [], {})
            if real.op == "phi":
                return phi(real.args[0], self.getattr(raw("pobj", path, real.args[1]), name), self.getattr(raw("pobj", path, real.args[2]), name))
            return raw("pobj", path + (name,), self.getattr(real, name))
        if op == "mutobj":
            m = n.args[0]
            if name in m.fields:
                return m.fields[name]
            return self.class_attr(n, m.cls, name)
        if op == "obj":
            d = obj_fields(n)
            if name in d:
                return d[name]
            return self.class_attr(n, self.class_of(n), name)
        if op == "cls":
            c = n.args[0]
            m = c.find(name)
            if m:
                return self.bind_method(n, *m) if self.method_kind(m[1]) != "method" else raw("clo", Clo(m[1], self.module_env(m[0].module), m[0]))
            if name in ("__name__", "__qualname__", "__module__"):
                return C(c.name)
            for k in c.mro():
                if isinstance(k, ClassInfo) and name in k.attrs:
                    return self.eval(k.attrs[name], self.module_env(k.module))
            return raw("attr", n, name)
        if op == "with":
            if n.args[1] == name:
                return n.args[2]
            cls = self.class_of(n)
            if cls is not None and cls.find(name):
                return self.opaque_member(n, cls, name)
            return self.getattr(n.args[0], name)
        cls = self.class_of(n)
        if cls is not None:
            return self.opaque_member(n, cls, name)
        if op == "at":
            return unk("at attribute")
        if op == "atidx":
            return raw("atmeth", n.args[0], n.args[1], name)
        if op == "c" and isinstance(n.args[0], str):
            return raw("bmeth", n, name)
        if op == "exc" or op == "super":
            if op == "super":
                return self.super_attr(n, name)
            return raw("attr", n, name)
        r = self.ext.array_attr(self, n, name)
        if r is not None:
            return r
        if name in self.ext.ARRAY_METHODS or op in ("extcall", "mext", "extobj") or op in ("list", "dict", "tuple"):
            if op in ("mext", "extobj", "extcall") and name not in self.ext.ARRAY_METHODS:
                return raw("attr", n, name)
            return raw("bmeth", n, name)
        return raw("attr", n, name)

    # methods that users override: never looked into on an opaque instance
    OPEN = {"compute", "compute_elementwise", "compute_mean", "gramian_row_mean", "grad_x", "grad_y", "grad_x_elementwise", "grad_y_elementwise",
            "divergence_x_grad_y", "divergence_x_grad_y_elementwise", "match", "solve", "solve_stack", "reduce", "refine", "reduce_iterative"}

    def inlinable(self, cls, m, name):
        """A concrete base-class helper that no class overrides."""
        if name in self.OPEN or (name.startswith("__") and name.strip("_") not in ("add", "radd", "mul", "rmul", "pow", "sub", "neg")):
            return False
        if any(ast.unparse(d).endswith("abstractmethod") for d in m[1].decorator_list):
            return False
        for c in self.pkg.classes.values():
            if c is not m[0] and name in c.methods and m[0] in c.mro():
                return False
        return True

    def opaque_member(self, n, cls, name):
        m = cls.find(name)
        if m is not None:
            if self.method_kind(m[1]) == "property":
                r = raw("attr", n, name)
                return r
            if self.inlinable(cls, m, name):
                return self.bind_method(n, *m)
            return raw("bmeth", n, name)
        fields = cls.all_fields()
        r = raw("attr", n, name)
        if name in fields:
            c, ann, dflt = fields[name]
            k = self.annotation_class(c, ann)
            if k is not None:
                nd.SHAPES[("kind", r.id)] = k
            elif ast.unparse(ann).split("|")[0].strip() in ("int", "float", "bool"):
                set_shape(r, ())
        return r

    def annotation_class(self, c, ann):
        t = ann
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, (ast.Name, ast.Attribute)):
            v = self.pkg.resolve_expr(c.module, t)
            if isinstance(v, ClassInfo):
                return v
        return None

    def class_attr(self, n, cls, name):
        if cls is None:
            return raw("attr", n, name)
        m = cls.find(name)
        if m is not None:
            c, fdef = m
            if self.method_kind(fdef) == "property":
                return self.call(raw("clo", Clo(fdef, self.module_env(c.module), c, n)), [], {})
            return self.bind_method(n, c, fdef)
        for k in cls.mro():
            if isinstance(k, ClassInfo) and name in k.attrs:
                return self.eval(k.attrs[name], self.module_env(k.module))
        if name == "__class__":
            return raw("cls", cls)
        if name == "__dict__":
            return unk("__dict__")
        return raw("attr", n, name)

    def super_attr(self, n, name):
        selfn, cls = n.args
        own = self.class_of(selfn) if selfn.op != "cls" else selfn.args[0]
        mro = own.mro() if own else cls.mro()
        i = mro.index(cls) + 1 if cls in mro else 0
        for c in mro[i:]:
            if isinstance(c, ClassInfo) and name in c.methods:
                return self.bind_method(selfn, c, c.methods[name])
        if name == "__init__":
            # dataclass-generated initialiser of the next analysed class, if any
            for c in mro[i:]:
                if isinstance(c, ClassInfo) and c.fields:
                    return raw("dcinit", selfn, c)
        return raw("ext", "builtins.noop")

    # ------------------------------------------------------------- truth
    def truth(self, n, record=True):
        if n in (TRUE, FALSE, BOT):
            return n
        if n is NONE:
            return FALSE
        if n.op == "num":
            return C(n.args[0] != 0)
        if n.op == "c":
            return C(bool(n.args[0]))
        if n.op in ("tuple", "list"):
            return C(len(n.args) > 0)
        if n.op in ("clo", "cls", "ext", "mod", "bmeth"):
            return TRUE
        if n.op in ("obj", "sym", "attr"):
            c = self.class_of(n)
            if c is not None and c.find("__bool__") is None:
                ln = c.find("__len__")
                if ln is None:
                    return TRUE
        if record:
            self.event("branch", cond=n)
        if n in self.facts:
            return C(self.facts[n])
        m = lnot(n)
        if m in self.facts:
            return C(not self.facts[m])
        for p in self.path:
            if p is n:
                return TRUE
            if p is m:
                return FALSE
        if n.op == "and":
            return land(*[self.truth(x, False) for x in n.args])
        if n.op == "or":
            return lor(*[self.truth(x, False) for x in n.args])
        return n

    def iterate(self, n):
        if n.op in ("tuple", "list"):
            return list(n.args)
        if n.op == "dict":
            return [k for k, _ in n.args[0]]
        if n.op == "obj":
            cls = self.class_of(n)
            if cls is not None and any(isinstance(b, str) and b.endswith("NamedTuple") for b in cls.mro()):
                return [v for _, v in n.args[1]]
            it = cls.find("__iter__") if cls else None
            if it is None and cls is not None and cls.find("__len__") is None:
                return None
            return None
        if n.op == "split" and n.args[1].op == "num":
            return [index(n, (C(i),)) for i in range(int(n.args[1].args[0]))]
        if n.op == "range" and all(a.op == "num" for a in n.args):
            r = range(*[int(a.args[0]) for a in n.args])
            if len(r) <= 16:
                return [C(i) for i in r]
            return None
        s = shape(n)
        if s and s[0].op == "num" and s[0].args[0] <= 16:
            return [index(n, (C(i),)) for i in range(int(s[0].args[0]))]
        return None

    # ------------------------------------------------------------- expressions
    def eval(self, e, env):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            return unk("expr " + type(e).__name__)
        return f(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis:
            return ELLIPSIS
        return C(e.value)

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Lambda(self, e, env):
        return raw("clo", Clo(e, env))

    def e_Tuple(self, e, env):
        return tup(*self.elts(e.elts, env))

    def e_List(self, e, env):
        return lst(*self.elts(e.elts, env))

    def e_Set(self, e, env):
        return raw("tuple", *self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                it = self.iterate(v)
                out.extend(it if it is not None else [raw("star", v)])
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, env)
                if d.op == "dict":
                    items.extend(d.args[0])
            else:
                items.append((self.eval(k, env), self.eval(v, env)))
        return raw("dict", tuple(items))

    def e_JoinedStr(self, e, env):
        return C("<fstring>")

    def e_Starred(self, e, env):
        return raw("star", self.eval(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.vars[e.target.id] = v
        return v

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if c is TRUE:
            return self.eval(e.body, env)
        if c is FALSE:
            return self.eval(e.orelse, env)
        self.path.append(c)
        a = self.eval(e.body, env)
        self.path[-1] = lnot(c)
        b = self.eval(e.orelse, env)
        self.path.pop()
        return phi(c, a, b)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        vals = []
        pushed = 0
        try:
            for x in e.values:
                v = self.eval(x, env)
                t = self.truth(v, record=False)
                if is_and and t is FALSE:
                    if not vals:
                        return v
                    return FALSE if all(self.boolish(q) for q in vals) else land(*[self.truth(q, False) for q in vals], FALSE)
                if not is_and and t is TRUE:
                    if not vals:
                        return v
                    return TRUE
                if t in (TRUE, FALSE) and x is not e.values[-1]:
                    continue
                vals.append(v)
                if t not in (TRUE, FALSE):
                    self.path.append(t if is_and else lnot(t))
                    pushed += 1
        finally:
            del self.path[len(self.path) - pushed:]
        if not vals:
            return TRUE if is_and else FALSE
        if len(vals) == 1:
            return vals[0]
        return (land if is_and else lor)(*[self.truth(v, False) for v in vals])

    def boolish(self, n):
        return n.op in ("lt", "le", "eq", "not", "and", "or", "isinst", "isnone") or n in (TRUE, FALSE)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return lnot(self.truth(v, record=True))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.Invert):
            return lnot(v)
        return v

    DUNDER = {ast.Add: "add", ast.Mult: "mul", ast.Sub: "sub", ast.Div: "truediv", ast.Pow: "pow",
              ast.MatMult: "matmul", ast.FloorDiv: "floordiv", ast.Mod: "mod"}

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if a is BOT or b is BOT:
            if op is ast.Add and (a.op in ("list", "listcat", "phi") or b.op in ("list", "listcat", "phi")):
                return listcat(a, b)
            return BOT
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            c = self.class_of(x)
            if c is not None and op in self.DUNDER:
                m = c.find(pre + self.DUNDER[op] + "__")
                if m is not None:
                    if x.op in ("obj", "mutobj", "sym", "attr", "with"):
                        return self.call(self.bind_method(x, *m), [y], {})
        if a.op == "c" and isinstance(a.args[0], str) or b.op == "c" and isinstance(b.args[0], str):
            if op is ast.Add and a.op == b.op == "c":
                try:
                    return C(a.args[0] + b.args[0])
                except TypeError:
                    pass
            if op is ast.BitOr:
                return unk("type union")
            return C("<str>")
        if op is ast.Add:
            if a.op in ("list", "tuple", "listcat") or b.op in ("list", "tuple", "listcat"):
                if (a.op in ("list", "tuple", "listcat", "phi")) and (b.op in ("list", "tuple", "listcat", "phi")):
                    return listcat(a, b)
                return add(self.arr(a), self.arr(b))
            if a.op == "phi" and any(x.op in ("list", "listcat") for x in a.args[1:]):
                return listcat(a, b)
            return add(a, b)
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple"):
                    if y.op == "num":
                        return raw(x.op, *(x.args * max(0, int(y.args[0]))))
                    return raw("listrep", x, y)
            return mul(a, b)
        a, b = self.arr(a), self.arr(b)
        if op is ast.Sub:
            r = sub(a, b)
            if a.id in self.float_logs and b.id in self.float_logs:
                self.log_differences.add(r.id)
            return r
        if op is ast.Div:
            return div(a, b)
        if op is ast.Pow:
            return power(a, b)
        if op is ast.MatMult:
            return dot(a, b)
        if op is ast.FloorDiv:
            return floordiv(a, b)
        if op is ast.Mod:
            if a.op == "num" and b.op == "num" and b.args[0]:
                return C(a.args[0] % b.args[0])
            return raw("mod", a, b)
        if op is ast.BitAnd:
            return land(a, b)
        if op is ast.BitOr:
            return lor(a, b)
        if op is ast.BitXor:
            return raw("xor", *sorted((a, b), key=lambda n: n.id))
        return unk("binop")

    def arr(self, n):
        """Array view of a value (Data -> its jax array)."""
        if n.op == "obj":
            c = self.class_of(n)
            m = c.find("__jax_array__") if c else None
            if m is not None:
                return self.call(self.bind_method(n, *m), [], {})
        return n

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            out.append(self.compare(type(op), left, right))
            left = right
        if len(out) > 1:
            return land(*out)
        return out[0]

    def compare(self, op, a, b):
        if a is BOT or b is BOT:
            return BOT
        if op in (ast.Is, ast.IsNot):
            r = self.is_(a, b)
            return r if op is ast.Is else lnot(r)
        if op in (ast.In, ast.NotIn):
            it = self.iterate(b)
            if it is not None:
                r = lor(*[self.compare(ast.Eq, a, x) for x in it])
            else:
                r = raw("in", a, b)
            return r if op is ast.In else lnot(r)
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}[op]
        if a.op == "obj" and b.op == "obj" and name in ("eq", "ne"):
            r = TRUE if a is b else raw("eq", *sorted((a, b), key=lambda n: n.id))
            if a.args[0] != b.args[0]:
                r = FALSE
            elif a is not b and all(shape(v) in (None, ()) for _, v in a.args[1] + b.args[1]):
                r = cmp("eq", a, b)
            return r if name == "eq" else lnot(r)
        return cmp(name, self.arr(a), self.arr(b))

    def is_(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x.op == "sym" and len(x.args) > 2 and "opt" in x.args[2:]:
                    return raw("isnone", x)
                if x.op == "phi":
                    return phi(x.args[0], self.is_(x.args[1], y), self.is_(x.args[2], y))
                if x.op in ("unk", "attr", "app", "mext"):
                    return raw("isnone", x)
                return FALSE
        if is_const(a) and is_const(b):
            return FALSE
        if a.op == "typeof" or b.op == "typeof" or a.op == "cls" or b.op == "cls":
            if a.op == b.op == "cls":
                return C(a is b)
            return raw("is", *sorted((a, b), key=lambda n: n.id))
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            x, y = (a, b) if b in (TRUE, FALSE) else (b, a)
            if x.op == "sym":
                return raw("is", x, y)
            return FALSE
        return raw("is", *sorted((a, b), key=lambda n: n.id))

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        keys = self.keys(e.slice, env)
        return self.subscript(v, keys)

    def keys(self, s, env):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    it = self.iterate(self.eval(x.value, env))
                    out.extend(it or [unk("star key")])
                else:
                    out.append(self.key1(x, env))
            return tuple(out)
        k = self.key1(s, env)
        if k.op == "tuple":
            return tuple(k.args)
        return (k,)

    def key1(self, x, env):
        if isinstance(x, ast.Slice):
            return self.mkslice(*[NONE if p is None else self.eval(p, env) for p in (x.lower, x.upper, x.step)])
        return self.arrkey(self.eval(x, env))

    def mkslice(self, a, b, c):
        if a is ZERO and c in (NONE, ONE):
            a = NONE
        if c is ONE:
            c = NONE
        return raw("slice", a, b, c)

    def arrkey(self, k):
        return self.arr(k) if k.op == "obj" else k

    def subscript(self, v, keys):
        if v is BOT:
            return BOT
        if v.op == "pobj":
            if len(keys) == 1 and keys[0].op == "num":
                return raw("pobj", v.args[0] + (int(keys[0].args[0]),), self.subscript(v.args[1], keys))
            return unk("path subscript")
        if v.op == "ext" and v.args[0].endswith(".c_"):
            cols = [k if rank(k) != 1 else expand_dims(k, ONE) for k in keys]
            return raw("concat", tuple(cols), ONE)
        if v.op == "cls" or v.op == "ext":
            return v            # generic alias
        if v.op == "at":
            return raw("atidx", v.args[0], tuple(keys))
        if v.op == "dict":
            for k, x in v.args[0]:
                if k is keys[0]:
                    return x
            return unk("dict key")
        if v.op == "phi" and any(x.op in ("list", "tuple", "obj", "listcat") for x in v.args[1:]):
            return phi(v.args[0], self.subscript(v.args[1], keys), self.subscript(v.args[2], keys))
        if v.op == "obj":
            cls = self.class_of(v)
            if cls is not None and any(isinstance(b, str) and b.endswith("NamedTuple") for b in cls.mro()):
                return index(tup(*[x for _, x in v.args[1]]), keys)
            m = cls.find("__getitem__") if cls else None
            if m is not None:
                k = keys[0] if len(keys) == 1 else tup(*keys)
                return self.call(self.bind_method(v, *m), [k], {})
        return index(v, keys)

    def e_Slice(self, e, env):
        return self.key1(e, env)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return raw("super", env.get("__self__"), env.get("__class__").args[0])
        saved = CUR_LOC[0]
        if CUR_LOC[0] is not None:
            CUR_LOC[0] = (CUR_LOC[0][0], e.lineno, CUR_LOC[0][2])
        # list.append on a local name
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "insert") and isinstance(e.func.value, ast.Name):
            base = self.name(e.func.value.id, env)
            if base.op in ("list", "listcat", "listrep", "map") or (base.op == "phi" and any(x.op in ("list", "listcat") for x in base.args[1:])):
                args = self.elts(e.args, env)
                new = listcat(base, lst(args[-1])) if e.func.attr != "extend" else listcat(base, args[0])
                if e.func.attr == "insert":
                    new = listcat(lst(args[-1]), base) if args[0] is ZERO else unk("insert")
                self.event("mutation", target=base, what="list." + e.func.attr, name=e.func.value.id)
                self.assign_name(e.func.value.id, new, env)
                return NONE
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if d.op == "dict":
                    for kk, v in d.args[0]:
                        kwargs[kk.args[0]] = v
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if CUR_LOC[0] is not None:
            CUR_LOC[0] = (CUR_LOC[0][0], e.lineno, CUR_LOC[0][2])
        if f.op == "dcinit":
            selfn, cls = f.args
            names = list(cls.all_fields())
            for n_, a in zip(names, args):
                selfn.args[0].fields[n_] = a
            selfn.args[0].fields.update(kwargs)
            return NONE
        r = self.call(f, args, kwargs)
        CUR_LOC[0] = saved
        return r

    def assign_name(self, name, v, env):
        e = env
        while e is not None and name not in e.vars:
            e = e.parent
        (e or env).vars[name] = v

    def e_ListComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_SetComp(self, e, env):
        return self.comp(e.elt, e.generators, env)

    def e_DictComp(self, e, env):
        it = self.iterate(self.eval(e.generators[0].iter, env))
        if it is None or len(e.generators) > 1:
            return unk("dictcomp")
        out = []
        for x in it:
            sub_ = Env(env)
            self.bind_target(e.generators[0].target, x, sub_)
            out.append((self.eval(e.key, sub_), self.eval(e.value, sub_)))
        return raw("dict", tuple(out))

    def comp(self, elt, gens, env):
        g = gens[0]
        src = self.eval(g.iter, env)
        return self.comp_over(src, elt, gens, env)

    def comp_over(self, src, elt, gens, env):
        g = gens[0]
        if src is BOT:
            return BOT
        if src.op == "phi":
            return phi(src.args[0], self.comp_over(src.args[1], elt, gens, env), self.comp_over(src.args[2], elt, gens, env))
        if src.op == "listcat":
            return listcat(self.comp_over(src.args[0], elt, gens, env), self.comp_over(src.args[1], elt, gens, env))
        it = self.iterate(src)
        if it is None:
            # symbolic iteration space
            if len(gens) > 1 or g.ifs:
                return unk("comprehension")
            n_ = src.args[-1] if src.op == "range" and len(src.args) == 1 else length(src)
            v = raw("vi", self.level, n_, (src,))
            x = v if src.op == "range" and len(src.args) == 1 else index(src, (v,))
            sub_ = Env(env)
            self.level += 1
            try:
                self.bind_target(g.target, x, sub_)
                r = self.eval(elt, sub_)
            finally:
                self.level -= 1
            return raw("map", r, v, n_)
        out = []
        for x in it:
            sub_ = Env(env)
            self.bind_target(g.target, x, sub_)
            keep = TRUE
            for c in g.ifs:
                keep = self.truth(self.eval(c, sub_))
                if keep is FALSE:
                    break
            if keep is FALSE:
                continue
            if keep is not TRUE:
                return unk("filtered comprehension")
            if len(gens) > 1:
                r = self.comp(elt, gens[1:], sub_)
                its = self.iterate(r)
                if its is None:
                    return unk("comprehension")
                out.extend(its)
            else:
                out.append(self.eval(elt, sub_))
        return lst(*out)

    # ------------------------------------------------------------- statements
    def bind_target(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            it = self.iterate(v)
            if v.op == "phi" and it is None:
                a, b = self.iterate(v.args[1]), self.iterate(v.args[2])
                if a is not None and b is not None and len(a) == len(b):
                    it = [phi(v.args[0], x, y) for x, y in zip(a, b)]
            if it is None:
                it = [index(v, (C(i),)) for i in range(len(t.elts) if not star else star[0])]
                if v is BOT:
                    it = [BOT] * len(t.elts)
                if star:
                    it = it + [index(v, (self.mkslice(C(star[0]), NONE, NONE),))]
                    for x, y in zip(t.elts, it):
                        self.bind_target(x.value if isinstance(x, ast.Starred) else x, y, env)
                    return
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                mid = it[i:len(it) - tail]
                vals = it[:i] + [lst(*mid)] + (it[len(it) - tail:] if tail else [])
                for x, y in zip(t.elts, vals):
                    self.bind_target(x.value if isinstance(x, ast.Starred) else x, y, env)
            else:
                if len(it) != len(t.elts):
                    self.event("unpack", have=len(it), want=len(t.elts), value=v)
                    self.event("raise", exc="ValueError", node=v, why="unpack")
                    it = (it + [BOT] * len(t.elts))[:len(t.elts)]
                for x, y in zip(t.elts, it):
                    self.bind_target(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if o.op == "mutobj":
                o.args[0].fields[t.attr] = v
            else:
                self.event("mutation", target=o, what="attr." + t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.event("mutation", target=o, what="item")
            if isinstance(t.value, ast.Name):
                k = self.keys(t.slice, env)
                if o.op == "list" and len(k) == 1 and k[0].op == "num":
                    xs = list(o.args)
                    xs[int(k[0].args[0])] = v
                    self.assign_name(t.value.id, lst(*xs), env)
                elif o.op == "dict":
                    d = [(a, b) for a, b in o.args[0] if a is not k[0]] + [(k[0], v)]
                    self.assign_name(t.value.id, raw("dict", tuple(d)), env)
                else:
                    self.assign_name(t.value.id, scatter("set", o, k, v), env)
        elif isinstance(t, ast.Starred):
            self.bind_target(t.value, v, env)

    def setloc(self, st, env):
        fn = self.callstack[-1] if self.callstack else None
        CUR_LOC[0] = (env.module.path if env.module else "?", getattr(st, "lineno", 0), getattr(fn, "name", "<lambda>") if fn is not None else "<module>")

    def exec_block(self, stmts, env):
        """Outcome tree of a statement list; 'env' is updated in place on fall-through."""
        for pos, st in enumerate(stmts):
            self.setloc(st, env)
            o = self.exec_stmt(st, env)
            if o is None or o[0] == "fall":
                continue
            rest = stmts[pos + 1:]
            return self.graft(o, rest, env)
        return ("fall", env)

    def graft(self, o, rest, env):
        falls = []

        def collect(x, conds):
            if x[0] == "fall":
                falls.append((x, conds))
            elif x[0] == "branch":
                collect(x[2], conds + [x[1]])
                collect(x[3], conds + [lnot(x[1])])
        collect(o, [])
        if not falls:
            return o
        if len(falls) == 1:
            leaf, conds = falls[0]
            env.vars.clear() if leaf[1] is not env else None
            if leaf[1] is not env:
                env.vars.update(leaf[1].vars)
            n0 = len(self.path)
            self.path.extend(conds)
            r = self.exec_block(rest, env) if rest else ("fall", env)
            del self.path[n0:]
            return self.replace(o, {id(leaf): r})
        reps = {}
        for leaf, conds in falls:
            n0 = len(self.path)
            self.path.extend(conds)
            reps[id(leaf)] = self.exec_block(rest, leaf[1]) if rest else leaf
            del self.path[n0:]
        o = self.replace(o, reps)
        return self.rejoin(o, env)

    def rejoin(self, o, env):
        """Merge adjacent fall-through leaves."""
        if o[0] == "branch":
            a, b = self.rejoin(o[2], env), self.rejoin(o[3], env)
            return self.join(o[1], a, b, env)
        return o

    def replace(self, o, reps):
        if id(o) in reps:
            return reps[id(o)]
        if o[0] == "branch":
            return ("branch", o[1], self.replace(o[2], reps), self.replace(o[3], reps))
        return o

    def join(self, c, o1, o2, env):
        if o1[0] == "fall" and o2[0] == "fall":
            merged = Env(env.parent, env.module)
            v1, v2 = o1[1].vars, o2[1].vars
            for k in list(v1) + [k for k in v2 if k not in v1]:
                if k in v1 and k in v2:
                    merged.vars[k] = phi(c, v1[k], v2[k])
                else:
                    merged.vars[k] = v1.get(k, v2.get(k))
            return ("fall", merged)
        return ("branch", c, o1, o2)

    def exec_stmt(self, st, env):
        f = getattr(self, "s_" + type(st).__name__, None)
        if f is None:
            return None
        return f(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.bind_target(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.bind_target(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        cur = self.eval(_load(st.target), env)
        v = self.binop(type(st.op), cur, self.eval(st.value, env))
        if isinstance(st.target, ast.Name):
            env.vars[st.target.id] = v
            if cur.op == "list":
                self.event("mutation", target=cur, what="augassign", name=st.target.id)
        else:
            self.bind_target(st.target, v, env)

    def s_Return(self, st, env):
        return ("ret", NONE if st.value is None else self.eval(st.value, env))

    def s_Raise(self, st, env):
        exc = "reraise"
        node = NONE
        if st.exc is not None:
            node = self.eval(st.exc, env)
            exc = self.exc_name(node)
        self.event("raise", exc=exc, node=node)
        return ("raise", exc)

    def exc_name(self, n):
        if n.op == "exc":
            return n.args[0]
        if n.op in ("ext", "extcall"):
            return n.args[0].split(".")[-1]
        if n.op == "cls":
            return n.args[0].name
        return "?"

    def s_Assert(self, st, env):
        self.event("assert", cond=self.eval(st.test, env))

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)

    def s_Pass(self, st, env):
        return None

    def s_Global(self, st, env):
        self.event("mutation", target=NONE, what="global", name=",".join(st.names))

    s_Nonlocal = s_Global

    def s_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = raw("mod", a.name)
            else:
                env.vars[a.name.split(".")[0]] = raw("mod", a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_from(st.module, a.name)

    def s_FunctionDef(self, st, env):
        if is_overload(st):
            return None
        env.vars[st.name] = self.make_function(st, env)

    def s_ClassDef(self, st, env):
        ci = ClassInfo(st.name, env.module, st)
        ci.qual = env.module.name + ".<local>." + st.name
        for b in st.bases:
            v = self.eval(b if not isinstance(b, ast.Subscript) else b.value, env)
            ci.bases.append(v.args[0] if v.op in ("cls", "ext") else "?")
        self.pkg.classes[ci.qual] = ci
        env.vars[st.name] = raw("cls", ci)

    def s_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if c is TRUE:
            return self.exec_block(st.body, env)
        if c is FALSE:
            return self.exec_block(st.orelse, env)
        if c is BOT:
            return ("raise", "bot")
        e1, e2 = env.copy(), env.copy()
        self.path.append(c)
        o1 = self.exec_block(st.body, e1)
        self.path[-1] = lnot(c)
        o2 = self.exec_block(st.orelse, e2)
        self.path.pop()
        o = self.join(c, o1, o2, env)
        if o[0] == "fall":
            env.vars.clear()
            env.vars.update(o[1].vars)
            return ("fall", env)
        return o

    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.bind_target(it.optional_vars, v, env)
        return self.exec_block(st.body, env)

    def s_Try(self, st, env):
        n0 = len(self.events)
        o = self.exec_block(st.body, env)
        for h in st.handlers:
            hn = ast.unparse(h.type) if h.type is not None else "BaseException"
            for ev in self.events[n0:]:
                if ev["kind"] == "raise":
                    ev.setdefault("caught", []).append(hn)
            e2 = env.copy()
            if h.name:
                e2.vars[h.name] = raw("exc", hn)
            self.setloc(h, env)
            c = raw("caught", hn, CUR_LOC[0][1] - 0, getattr(self.callstack[-1], "name", "?") if self.callstack else "?")
            self.path.append(c)
            ho = self.exec_block(h.body, e2)
            self.path.pop()
            if _only_raise(ho):
                continue
            if o is None:
                o = ("fall", env)
            o = self.join(c, ho, o, env)
            if o[0] == "fall" and o[1] is not env:
                env.vars.clear()
                env.vars.update(o[1].vars)
                o = ("fall", env)
        if st.orelse and (o is None or o[0] == "fall"):
            o = self.exec_block(st.orelse, env)
        if st.finalbody:
            fo = self.exec_block(st.finalbody, env)
            if fo[0] != "fall":
                return fo
        return o

    def s_For(self, st, env):
        src = self.eval(st.iter, env)
        it = self.iterate(src)
        if it is not None:
            for x in it:
                self.bind_target(st.target, x, env)
                o = self.exec_block(st.body, env)
                if o[0] == "fall":
                    continue
                if o[0] == "break":
                    break
                if o[0] == "continue":
                    continue
                if o[0] in ("ret", "raise"):
                    return o
                o = self.strip_continue(o)
                if o is None:
                    return ("ret", unk("loop control flow"))
                if o[0] != "fall":
                    g = self.graft(o, [], env)
                    if g[0] != "fall":
                        return ("ret", unk("loop control flow"))
            return None
        return self.symbolic_loop(st, env, src)

    def strip_continue(self, o):
        return None if o[0] == "branch" else o

    def symbolic_loop(self, st, env, src):
        """Python loop over a symbolic range: same treatment as fori_loop."""
        names = sorted({n_.id for b in st.body for n_ in ast.walk(b)
                        if isinstance(n_, ast.Name) and isinstance(n_.ctx, ast.Store)} & set(env.vars))
        if any(isinstance(n_, (ast.Return, ast.Break, ast.Continue)) for b in st.body for n_ in ast.walk(b)):
            for n_ in names:
                env.vars[n_] = unk("loop control flow")
            return None
        # names mutated through append
        L = self.level
        flat = [(n_, self.flatten(env.vars[n_])) for n_ in names]
        leaves = [l for _, (ls, _) in flat for l in ls]
        lvs = self.carry_vars(L, leaves)
        if isinstance(st, ast.For):
            if src.op == "range":
                lo, hi = (ZERO, src.args[0]) if len(src.args) == 1 else (src.args[0], src.args[1])
                if len(src.args) == 3 and src.args[2] is not ONE:
                    for n_ in names:
                        env.vars[n_] = unk("stepped loop")
                    return None
            else:
                lo, hi = ZERO, length(src)
            iv = raw("iv", L, lo, hi)
            item = iv if src.op == "range" else index(src, (iv,))
        i = 0
        sub_ = env.copy()
        for n_, (ls, rb) in flat:
            sub_.vars[n_] = rb(lvs[i:i + len(ls)])
            i += len(ls)
        self.level += 1
        try:
            cond = None
            if isinstance(st, ast.For):
                self.bind_target(st.target, item, sub_)
            else:
                cond = self.truth(self.eval(st.test, sub_))
            o = self.exec_block(st.body, sub_)
        finally:
            self.level -= 1
        if o[0] == "fall":
            outs = []
            for n_, (ls, rb) in flat:
                ol, _ = self.flatten(o[1].vars.get(n_, BOT))
                outs.append(ol if len(ol) == len(ls) else None)
            if all(x is not None for x in outs):
                fo = [x for xs in outs for x in xs]
                if isinstance(st, ast.For):
                    res = self.close_loop(lo, hi, iv, lvs, leaves, fo)
                else:
                    res = self.close_loop(None, None, None, lvs, leaves, fo, cond=cond)
                i = 0
                for n_, (ls, rb) in flat:
                    env.vars[n_] = rb(res[i:i + len(ls)])
                    i += len(ls)
                return None
        for n_ in names:
            env.vars[n_] = unk("loop")
        return None

    def s_While(self, st, env):
        for _ in range(17):
            c = self.truth(self.eval(st.test, env))
            if c is FALSE:
                return None
            if c is not TRUE:
                break
            o = self.exec_block(st.body, env)
            if o[0] == "break":
                return None
            if o[0] in ("ret", "raise"):
                return o
            if o[0] == "branch":
                return ("ret", unk("loop control flow"))
        return self.symbolic_loop(st, env, None)

    def s_Break(self, st, env):
        return ("break",)

    def s_Continue(self, st, env):
        return ("continue",)

    # ------------------------------------------------------------- entry points
    def get(self, dotted):
        """Resolve a public dotted name to a value node (or None)."""
        modname, _, attr = dotted.rpartition(".")
        m = self.pkg.modules.get(modname)
        return None if m is None else self.lookup_module(m, attr)


def _only_raise(o):
    if o[0] == "raise":
        return True
    if o[0] == "branch":
        return _only_raise(o[2]) and _only_raise(o[3])
    return False


def _load(t):
    return ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)


_gen_cache = {}


def _is_generator(f):
    r = _gen_cache.get(f)
    if r is None:
        r = False
        st = list(f.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(x))
        _gen_cache[f] = r
    return r
