"""Parse the package and resolve names, classes and fields."""
import ast
import os


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bind = {}       # name -> ('func'|'class'|'import'|'from'|'assign', ...)
        self.env = None
        self.consts = {}

    def scan(self, body=None):
        for st in (self.tree.body if body is None else body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if not is_overload(st):
                    self.bind[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                self.bind[st.name] = ("class", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.bind[a.asname] = ("mod", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.bind[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ("assign", st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bind[e.id] = ("assign_item", st.value, i)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.If):
                test = ast.unparse(st.test)
                if "TYPE_CHECKING" in test:
                    self.scan(st.orelse)
                else:
                    self.scan(st.body)
                    self.scan(st.orelse)
            elif isinstance(st, ast.Try):
                self.scan(st.body)


def is_overload(fn):
    for d in fn.decorator_list:
        t = d
        if isinstance(t, ast.Attribute) and t.attr == "overload":
            return True
        if isinstance(t, ast.Name) and t.id == "overload":
            return True
    return False


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module.name + "." + name
        self.bases = []       # ClassInfo or str (external)
        self.methods = {}     # name -> FunctionDef
        self.fields = []      # (name, annotation, default expr or None, static, converter expr, has_default)
        self.attrs = {}       # class-level assignments
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                if not is_overload(st):
                    self.methods[st.name] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if "ClassVar" in ast.unparse(st.annotation):
                    self.attrs[st.target.id] = st.value
                    continue
                self.fields.append((st.target.id, st.annotation, st.value))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value

    def __repr__(self):
        return f"<class {self.qual}>"

    def mro(self):
        """C3 linearisation over analysed classes; external bases as strings last."""
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in t if x is not h and x != h] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        if not hasattr(self, "_mro"):
            self._mro = [self] + merge([b.mro() if isinstance(b, ClassInfo) else [b] for b in self.bases] + [list(self.bases)])
        return self._mro

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c, c.methods[name]
        return None

    def all_fields(self):
        """Dataclass field order: base-first, overridden in place."""
        out = {}
        for c in reversed(self.mro()):
            if isinstance(c, ClassInfo):
                for (n, ann, dflt) in c.fields:
                    out[n] = (c, ann, dflt)
        return out

    def is_sub(self, other):
        if isinstance(other, ClassInfo):
            return other in self.mro()
        return any(isinstance(b, str) and b == other for b in self.mro())


class Package:
    def __init__(self, root, name, extra=()):
        self.root, self.name = root, name
        self.modules = {}
        self.classes = {}
        for r, n in ((root, name),) + tuple(extra):
            self.load(r, n)
        self.link()

    def load(self, root, name):
        top = os.path.join(root, name)
        for d, _, files in sorted(os.walk(top)):
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                with open(p, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), p)
                m = Module(".".join(rel), p, tree, is_pkg)
                self.modules[m.name] = m

    def link(self):
        for m in self.modules.values():
            m.scan()
        for m in self.modules.values():
            for nme, b in m.bind.items():
                if b[0] == "class":
                    ci = ClassInfo(nme, m, b[1])
                    self.classes[ci.qual] = ci
        for ci in self.classes.values():
            for b in ci.node.bases:
                t = b
                while isinstance(t, ast.Subscript):
                    t = t.value
                ci.bases.append(self.resolve_expr(ci.module, t))

    def resolve_expr(self, mod, e):
        """Resolve a Name/Attribute expression to ClassInfo or dotted external name."""
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, str):
                full = b + "." + e.attr
                if b in self.modules:
                    return self.resolve(self.modules[b], e.attr)
                return full
        return ast.unparse(e)

    def resolve(self, mod, name, seen=()):
        b = mod.bind.get(name)
        if b is None:
            return name
        if b[0] == "class":
            return self.classes[mod.name + "." + name]
        if b[0] == "mod":
            return b[1]
        if b[0] == "from":
            if b[1] in self.modules:
                m2 = self.modules[b[1]]
                if b[2] in m2.bind and (m2.name, b[2]) not in seen:
                    return self.resolve(m2, b[2], seen + ((m2.name, b[2]),))
                if b[1] + "." + b[2] in self.modules:
                    return b[1] + "." + b[2]
            return b[1] + "." + b[2]
        return mod.name + "." + name

    def lookup(self, dotted):
        """Public lookup: 'coreax.solvers.KernelHerding' -> ('class', ClassInfo) etc."""
        modname, _, attr = dotted.rpartition(".")
        m = self.modules.get(modname)
        if m is None:
            return None
        b = m.bind.get(attr)
        hops = 0
        while b is not None and b[0] == "from" and hops < 10:
            m2 = self.modules.get(b[1])
            if m2 is None:
                return None
            m, attr = m2, b[2]
            b = m.bind.get(attr)
            hops += 1
        if b is None:
            return None
        if b[0] == "class":
            return ("class", self.classes[m.name + "." + attr])
        if b[0] == "func":
            return ("func", m, b[1])
        return ("other", m, b)
