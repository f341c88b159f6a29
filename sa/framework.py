"""Obligation bookkeeping shared by all checks."""
import ast
from fractions import Fraction
import os
import contextlib
import signal
import time
import traceback

from . import nodes as nd
from .nodes import N, C, sym, set_shape, NONE, TRUE, FALSE, BOT, ONE, ZERO, FACTS_LE, NONNEG
from .interp import Interp
from .loader import Package, ClassInfo
from . import compare as cp
from .compare import OK, BAD, UNKNOWN

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorMissing(Exception):
    pass


class Ob:
    def __init__(self, group, label, status, why="", where="", finding=None):
        self.group, self.label, self.status, self.why, self.where, self.finding = group, label, status, why, where, finding


PER_OBLIGATION = {"quick": 60, "thorough": 300}
BUDGET = {"quick": 600, "thorough": 3000}


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def stop(*_):
        raise OutOfTime()
    try:
        old = signal.signal(signal.SIGALRM, stop)
    except ValueError:                  # not the main thread
        yield
        return
    outer = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    t = time.time()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if outer:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, outer - (time.time() - t)))


class Session:
    """One analysis run over the current source of the repository."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.t0 = time.time()
        self.pkg = Package(REPO, "coreax", extra=((HERE, "vspec"),))
        self.obs = []
        self.group = None
        self.functions = set()
        self.errors = []
        self.events = 0

    # ---------------------------------------------------------------- groups
    def run(self, name, fn):
        self.group = name
        t = time.time()
        n0 = len(self.obs)
        le, nn = list(FACTS_LE), set(NONNEG)
        try:
            with limit(max(1, BUDGET[self.tier] + 60 - (t - self.t0))):
                fn(self)
        except AnchorMissing:
            raise
        except OutOfTime:
            self.obs.append(Ob(name, "analysis", UNKNOWN, "time budget of the check used up"))
        except RecursionError as e:
            self.obs.append(Ob(name, "analysis", UNKNOWN, "recursion limit"))
            self.errors.append((name, "RecursionError"))
        except Exception as e:
            self.obs.append(Ob(name, "analysis", UNKNOWN, f"{type(e).__name__}: {e}"))
            self.errors.append((name, traceback.format_exc()))
        finally:
            FACTS_LE[:] = le
            NONNEG.clear()
            NONNEG.update(nn)
        return time.time() - t

    def interp(self, **kw):
        I = Interp(self.pkg, **kw)
        I.functions = self.functions
        return I

    def cls(self, I, dotted):
        r = self.pkg.lookup(dotted)
        if r is None:
            raise AnchorMissing(dotted)
        return I.get(dotted)

    def has(self, dotted):
        return self.pkg.lookup(dotted) is not None

    # ---------------------------------------------------------------- obligations
    def where(self, node=None, ref=None, anchor=None):
        if node is not None and ref is not None and isinstance(ref, N):
            locs = [l for l in cp.frontier(node, ref) if l and l[0].startswith(REPO)]
            if locs:
                f, line, q = locs[0][:3]
                return f"{os.path.relpath(f, REPO)}:{line} ({q})"
        if anchor:
            return self.anchor(anchor)
        if node is not None and nd.loc(node):
            f, line, q = nd.loc(node)[:3]
            return f"{os.path.relpath(f, REPO)}:{line} ({q})"
        return ""

    def anchor(self, dotted):
        """Source position of 'module.Class.method' / 'module.func'."""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            r = self.pkg.lookup(".".join(parts[:k])) if k > 1 else None
            if r is None:
                continue
            if r[0] == "class":
                ci = r[1]
                if k < len(parts):
                    m = ci.find(parts[k])
                    if m:
                        return f"{os.path.relpath(m[0].module.path, REPO)}:{m[1].lineno} ({m[0].name}.{parts[k]})"
                return f"{os.path.relpath(ci.module.path, REPO)}:{ci.node.lineno} ({ci.name})"
            if r[0] == "func":
                return f"{os.path.relpath(r[1].path, REPO)}:{r[2].lineno} ({r[2].name})"
        return dotted

    def add(self, label, status, why="", where="", finding=None):
        self.obs.append(Ob(self.group, label, status, why, where, finding))
        return status

    def equal(self, label, act, ref, anchor=None, alts=(), ignore=(), alts_first=False):
        """act must equal ref; 'alts' are (finding id, value) of recorded defects."""
        left = min(PER_OBLIGATION[self.tier], BUDGET[self.tier] - (time.time() - self.t0))
        if left < 1:
            return self.add(label, UNKNOWN, "time budget of the check used up")
        try:
            with limit(left):
                return self._equal(label, act, ref, anchor, alts, ignore, alts_first)
        except OutOfTime:
            return self.add(label, UNKNOWN, "time limit of one obligation")

    def _equal(self, label, act, ref, anchor, alts, ignore, alts_first):
        try:
            if alts_first:      # same verdict, cheaper when the recorded defect is present
                for fid, alt in alts:
                    if cp.compare(act, alt, label, ignore).status == OK:
                        return self.add(label, "finding", "", self.where(None, None, anchor), fid)
            r = cp.compare(act, ref, label, ignore)
        except RecursionError:
            r = cp.Result(UNKNOWN, "recursion limit")
        if r.status != OK:
            for fid, alt in alts:
                ra = cp.compare(act, alt, label, ignore)
                if ra.status == OK:
                    return self.add(label, "finding", "", self.where(None, None, anchor), fid)
                if ra.status == UNKNOWN:
                    r = ra
        w = ""
        if r.status != OK:
            try:
                w = self.where(act, ref, anchor)
            except Exception:
                w = self.where(None, None, anchor)
        return self.add(label, r.status, r.why, w)

    def holds(self, label, ok, why="", where="", anchor=None, finding=None):
        """ok: True / False / None (not decided)."""
        w = where or (self.anchor(anchor) if anchor else "")
        if ok is False and finding:
            return self.add(label, "finding", why, w, finding)
        return self.add(label, OK if ok else (UNKNOWN if ok is None else BAD), why, w)

    # ---------------------------------------------------------------- symbols
    def dim(self, name):
        n = set_shape(sym(name, "int"), ())
        NONNEG.add(n.id)
        return n

    def scalar(self, name, kind="float"):
        return set_shape(sym(name, kind), ())

    def array(self, name, *dims):
        cp.ARRAYS.add(name)
        return set_shape(sym(name), tuple(C(d) if isinstance(d, int) else d for d in dims))

    def key(self, name="key"):
        return set_shape(sym(name, "key"), ())

    def opaque(self, I, name, dotted):
        return sym(name, self.cls(I, dotted).args[0], "exact")

    def call(self, I, obj, meth, *args, **kw):
        return I.call(I.getattr(obj, meth), list(args), kw)

    def spec(self, I, dotted, *args, **kw):
        f = I.get("vspec." + dotted)
        saved = nd.CUR_LOC[0]
        try:
            return I.call(f, list(args), kw)
        finally:
            nd.CUR_LOC[0] = saved

    # ---------------------------------------------------------------- failures
    def raised(self, I, thunk):
        """-> (value, [(exception name, condition node, location)])"""
        k = len(I.events)
        v = thunk()
        out = []
        for e in I.events[k:]:
            if e["kind"] == "raise":
                out.append((e.get("exc"), nd.land(*e["path"]) if e["path"] else TRUE, e.get("loc")))
        return v, out

    def raises_iff(self, label, I, thunk, cond, excs=("ValueError",), anchor=None):
        """The call fails with one of 'excs' exactly when 'cond' holds."""
        v, ev = self.raised(I, thunk)
        hit = [c for x, c, _ in ev if x in excs]
        act = nd.lor(*hit) if hit else FALSE
        st = self.equal(label, act, cond, anchor)
        return v
