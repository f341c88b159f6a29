"""Rules over whole runs of the public entry points and over the syntax of the package:
traceability (no Python decision on traced values), randomness (only the caller's key), purity (no writes to
caller-visible or global state)."""
import ast
import importlib
import os

from sa.framework import *

RUNS = ("kernels:gradients", "kernels:evaluation", "kernels:means", "data:containers", "data:coresets", "algebra:stein", "metrics:mmd", "metrics:jmmd",
        "metrics:amcmd", "metrics:ksd", "weights:optimisers", "weights:least_squares", "solvers:herding_refine", "solvers:herding_iterative",
        "solvers:random_sample", "solvers:stein_thinning", "solvers:cholesky", "solvers:greedy_points", "solvers:thinning_half", "solvers:thinning",
        "solvers:compress", "composite:map_reduce", "recombination:caratheodory", "recombination:tree", "approx:row_means", "score:kde", "score:conversion")
RANDOM = tuple(g for g in RUNS if g.split(":")[0] in ("solvers", "composite", "recombination", "approx", "weights"))


def leaves(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, N) and x.id not in seen:
            seen.add(x.id)
            if x.op == "sym":
                yield x
            if x.op in ("shapeof", "ndimof", "sizeof", "dtypeof", "len"):
                continue            # known when the program is compiled, whatever the contents
            st.extend(x.args)


def runs(s, groups):
    """Interpret the entry points of the given groups (no comparisons) and yield their recorded events."""
    for g in groups:
        sub = Session.__new__(Session)
        sub.__dict__.update(s.__dict__)
        sub.obs, sub.errors, ints = [], [], []

        def interp(**kw):
            I = Session.interp(sub, **kw)
            ints.append(I)
            return I
        sub.interp = interp
        sub.equal = sub._equal = lambda *a, **k: OK
        sub.holds = lambda *a, **k: OK
        m, f = g.split(":")
        sub.run(g, getattr(importlib.import_module("checks." + m), f))
        ev = [e for I in ints for e in I.events if not (e.get("loc") and not e["loc"][0].startswith(REPO))]
        yield g, ev, [o for o in sub.obs if o.status == UNKNOWN]


def _where(e):
    l = e.get("loc")
    return f"{os.path.relpath(l[0], REPO)}:{l[1]} ({l[2]})" if l else ""


def _content(x):
    """Symbol whose value is only known when the compiled program runs (array contents, keys)."""
    return x.args[1] == "key" or (x.args[0] in cp.ARRAYS and x.args[1] != "int" and bool(shape_of(x)))


def shape_of(x):
    from sa.shapes import shape
    try:
        return shape(x)
    except Exception:
        return None


def traceable(s):
    for g, ev, unk in runs(s, RUNS):
        n = 0
        bad = {}
        for e in ev:
            v = {"branch": e.get("cond"), "concretise": e.get("node"), "numpy": e.get("args"), "dynshape": e.get("node")}.get(e["kind"])
            if v is None:
                continue
            n += 1
            names = sorted({str(x.args[0]) for x in leaves(v) if _content(x)})
            if not names:
                continue
            if g.startswith("recombination") and (e["kind"] == "dynshape" or any(x.op == "nnz" for x in _nodes(v))):
                continue        # the explicit-size mode is documented as not compilable
            bad.setdefault((_where(e), e["kind"]), names)
        for (w, k), names in sorted(bad.items())[:5]:
            s.holds(f"{g}: no Python decision on array contents", False, f"{k} on a value computed from {names[:4]}", where=w)
        if not bad:
            s.holds(f"{g}: no Python decision on array contents ({n} decisions)", True if not unk else None, "the run was not completely analysed")


def _nodes(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, N) and x.id not in seen:
            seen.add(x.id)
            yield x
            st.extend(x.args)


def keyed(s):
    for g, ev, unk in runs(s, RANDOM):
        n, bad = 0, {}
        for e in ev:
            if e["kind"] == "draw":
                n += 1
                if not any(x.args[1] == "key" for x in leaves(e["key"])):
                    bad.setdefault((_where(e), e.get("what")), nd.show(e["key"])[:80])
        for (w, k), key in sorted(bad.items()):
            s.holds(f"{g}: every draw uses the caller's key", False, f"{k} draws with {key}", where=w)
        if not bad:
            s.holds(f"{g}: every draw uses the caller's key ({n} draws)", True if not unk else None, "the run was not completely analysed")


# ---------------------------------------------------------------- syntactic rules over the package
CORE = ("coreax.solvers", "coreax.kernels", "coreax.metrics", "coreax.weights", "coreax.data", "coreax.coreset", "coreax.least_squares",
        "coreax.score_matching", "coreax.approximation", "coreax.networks")
IMPURE = ("random.", "numpy.random.", "time.", "datetime.", "secrets.", "uuid.", "os.urandom", "os.environ", "os.getenv", "os.getpid", "jax.config.update",
          "builtins.input", "builtins.open", "builtins.id", "builtins.hash", "socket.", "tempfile.")
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "fill", "resize", "setflags", "add",
            "discard", "__setitem__", "__setattr__", "__delitem__", "itemset", "put", "partition"}


class Fn:
    def __init__(self, mod, node, cls, outer):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.name = getattr(node, "name", "<lambda>")
        self.imports = {}

    @property
    def qual(self):
        return ".".join(filter(None, [self.mod.name, self.cls, self.name]))


def functions(pkg):
    out = []

    def visit(mod, body, cls, outer):
        for st in body:
            walk(mod, st, cls, outer)

    def walk(mod, node, cls, outer):
        if isinstance(node, ast.ClassDef):
            for x in node.body:
                walk(mod, x, node.name, outer)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            f = Fn(mod, node, cls, outer)
            out.append(f)
            for x in (node.body if isinstance(node.body, list) else [node.body]):
                walk(mod, x, cls, f)
        else:
            if isinstance(node, (ast.Import, ast.ImportFrom)) and outer is not None:
                for a in node.names:
                    if isinstance(node, ast.Import):
                        outer.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                    else:
                        outer.imports[a.asname or a.name] = (node.module or "") + "." + a.name
            for x in ast.iter_child_nodes(node):
                walk(mod, x, cls, outer)
    for m in pkg.modules.values():
        if m.name.startswith("coreax"):
            visit(m, m.tree.body, None, None)
    return out


def own(fn):
    """Nodes of a function body without those of nested functions."""
    st = list(fn.node.body) if isinstance(fn.node.body, list) else [fn.node.body]
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


def resolve(pkg, fn, e):
    """Dotted name of an expression, through local imports, module bindings and builtins."""
    if isinstance(e, ast.Name):
        f = fn
        while f is not None:
            if e.id in f.imports:
                return f.imports[e.id]
            if e.id in f.params or e.id in bound(f):
                return None
            f = f.outer
        if e.id in fn.mod.bind:
            r = pkg.resolve(fn.mod, e.id)
            return r if isinstance(r, str) else r.qual
        return "builtins." + e.id
    if isinstance(e, ast.Attribute):
        b = resolve(pkg, fn, e.value)
        return None if b is None else b + "." + e.attr
    return None


def bound(fn):
    if not hasattr(fn, "_bound"):
        fn._bound = set()
        for x in own(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                fn._bound.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                fn._bound.add(x.name)
        for x in own(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                fn._bound -= set(x.names)
    return fn._bound


def root(fn, e, depth=0):
    """Where the object denoted by e lives: ('param', name, fn) | ('global', name) | ('fresh',)"""
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        if isinstance(e, ast.Attribute) and e.attr == "at":
            return ("fresh",)
        e = e.value
    if not isinstance(e, ast.Name):
        return ("fresh",)
    f = fn
    while f is not None:
        if e.id in bound(f) and depth < 8:
            rs = []
            for x in own(f):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id == e.id and x.value is not None and not (isinstance(x.value, ast.Name) and x.value.id == e.id):
                            rs.append(root(f, x.value, depth + 1))
            if e.id in f.params and not rs:
                return ("param", e.id, f)
            for r in rs:
                if r[0] != "fresh":
                    return r
            return ("fresh",)
        if e.id in f.params:
            return ("param", e.id, f)
        f = f.outer
    return ("global", e.id)


def writes(fn):
    """(expression written to, syntax node, description)"""
    for x in own(fn):
        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for u in ast.walk(t):
                if isinstance(u, (ast.Attribute, ast.Subscript)) and isinstance(u.ctx, (ast.Store, ast.Del)):
                    yield u.value, x, ast.unparse(u)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            yield x.func.value, x, ast.unparse(x.func)
        if isinstance(x, ast.Call) and ast.unparse(x.func) in ("setattr", "object.__setattr__", "delattr") and x.args:
            yield x.args[0], x, ast.unparse(x)[:60]


INIT = ("__init__", "__post_init__", "__check_init__", "__init_subclass__", "__set_name__")


def pure(s):
    pkg = s.pkg
    fns = functions(pkg)
    s.functions.update((f.mod.path, f.qual) for f in fns)
    reach = core_reachable(pkg, fns)
    by = {}
    for f in fns:
        by.setdefault(f.qual, f)
    mutated, viol, total = {}, [], 0
    for f in fns:
        for base, x, what in writes(f):
            total += 1
            if isinstance(base, ast.Name) and resolve(pkg, f, base) not in (None, "builtins." + base.id) and resolve(pkg, f, base).split(".")[0] in ("jax", "numpy", "equinox", "jtu"):
                if "config" not in what:
                    continue            # a library function that merely has such a name
            r = root(f, base)
            if r[0] == "param":
                if f.name in INIT and r[1] == "self":
                    continue
                if r[1] == "self" and "." in what and isinstance(x, ast.Call) and what.rsplit(".", 1)[-1] not in ("append", "extend", "update", "pop", "clear", "insert", "setdefault", "__setattr__", "__setitem__"):
                    continue            # a method of an own field that merely has such a name
                mutated.setdefault((r[2].qual, r[1]), (f, x, what))
            elif r[0] == "global":
                viol.append((f, x, f"writes to module state: {what}"))
        for x in own(f):
            if isinstance(x, ast.Global):
                viol.append((f, x, "rebinds the module variable " + ", ".join(x.names)))
    # a private helper may write to what its callers created; propagate to the callers
    changed = True
    done = set()
    while changed:
        changed = False
        for f in fns:
            for x in own(f):
                if not isinstance(x, ast.Call):
                    continue
                q = resolve(pkg, f, x.func) if not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self") else f"{f.mod.name}.{f.cls}.{x.func.attr}"
                if q is None and isinstance(x.func, ast.Name):
                    q = ".".join(filter(None, [f.mod.name, f.cls, x.func.id]))
                g = by.get(q)
                if g is None:
                    continue
                ps = g.params[1:] if g.params[:1] == ["self"] else g.params
                for p, a in list(zip(ps, x.args)) + [(k.arg, k.value) for k in x.keywords]:
                    if (g.qual, p) in mutated and (f.qual, x.lineno, x.col_offset, p) not in done:
                        done.add((f.qual, x.lineno, x.col_offset, p))
                        r = root(f, a)
                        if r[0] == "param" and (r[2].qual, r[1]) not in mutated:
                            mutated[(r[2].qual, r[1])] = (f, x, f"passes {r[1]} to {g.name}, which writes to it")
                            changed = True
                        elif r[0] == "global":
                            viol.append((f, x, f"passes module state to {g.name}, which writes to it"))
    for (q, p), (f, x, what) in mutated.items():
        g = by.get(q)
        nm = q.rsplit(".", 1)[-1]
        nested = g is not None and g.outer is not None
        if nested or (nm.startswith("_") and not nm.startswith("__") and p != "self"):
            continue
        viol.append((f, x, f"writes to the argument '{p}' of {nm}: {what}"))
    for f in fns:
        a = f.node.args
        for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) and f.qual in reach:
                names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                for nme in names:
                    if (f.qual, nme) in mutated:
                        viol.append((f, d, f"mutable default argument of {f.name} is written to"))
    viol = [v for v in viol if v[0].qual in reach]
    for f, x, why in viol:
        s.holds(f"{f.qual} leaves caller-visible state alone", False, why, where=f"{os.path.relpath(f.mod.path, REPO)}:{x.lineno} ({f.name})")
    if not viol:
        s.holds(f"no write to an argument or to module state in {len(fns)} functions ({total} writes)", True)


def core_reachable(pkg, fns):
    """Functions of the core modules and everything of the package whose name they mention (transitively)."""
    names = {}
    for f in fns:
        names.setdefault(f.name, []).append(f)
    todo = [f for f in fns if f.mod.name.startswith(CORE)]
    out = set()
    while todo:
        f = todo.pop()
        if f.qual in out:
            continue
        out.add(f.qual)
        for x in ast.walk(f.node):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            for g in names.get(nm, ()):
                if g.mod.name == "coreax.util" or g.mod.name.startswith(CORE):
                    todo.append(g)
    return out


def deterministic(s):
    pkg = s.pkg
    fns = functions(pkg)
    s.functions.update((f.mod.path, f.qual) for f in fns)
    reach = core_reachable(pkg, fns)
    calls, viol = 0, []
    for f in fns:
        if f.qual not in reach:
            continue
        for x in own(f):
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(getattr(x, "ctx", None), ast.Load):
                q = resolve(pkg, f, x)
                if q is None:
                    continue
                calls += 1
                if any(q == p.rstrip(".") or q.startswith(p) for p in IMPURE) and not (p_is_module(q)):
                    viol.append((f, x, q))
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, (ast.Set, ast.SetComp)):
                viol.append((f, x.iter, "iteration over a set"))
    for f, x, q in viol:
        s.holds(f"{f.qual} depends on its inputs and key alone", False, f"uses {q}", where=f"{os.path.relpath(f.mod.path, REPO)}:{x.lineno} ({f.name})")
    if not viol:
        s.holds(f"no clock, global generator, environment or identity is consulted ({len(reach)} functions, {calls} references)", True)


def p_is_module(q):
    return q in ("random", "time", "datetime", "numpy.random")
