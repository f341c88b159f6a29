"""The comparison must accept rewrites and reject small wrong variants; run before every check."""
from sa.framework import *


def run(s):
    s.group = "selftest"
    I = s.interp()
    n, d = s.dim("st_n"), s.dim("st_d")
    x, w = s.array("st_x", n, d), s.array("st_w", n)
    for name, want in (("same_mean", OK), ("loop_mean", OK), ("wrong_mean", BAD), ("wrong_index", BAD), ("mutated", BAD)):
        a = s.spec(I, "selftest." + name, x, w)
        r = s.spec(I, "selftest.mean", x, w)
        got = cp.compare(a, r, name).status
        if got != want:
            return f"{name}: {got}, expected {want}"
    return ""
