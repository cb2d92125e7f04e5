"""C09: step() and skip() advance by exactly the steps asked for, and stop or raise as documented.
C10 (sa/checks/c10.py) compares what step() returns on the same placements."""
from __future__ import annotations

from ..driver import *
from ..report import Report


NS = [None, 0, 1, 2, 3]
UPTO = [None, (-1, 1), (0, None), (0, 0), (1, None), (1, 1), (2, None), (3, 0)]
TB = [None, (0, None), (0, 1), (1, None), (1, 0), (2, None), (2, 1), (3, 1)]


def order(p):
    return (p[0], -1 if p[1] is None else p[1])


def spec(n, upto, tb):
    """(steps taken, exception or None, silent)"""
    if upto is not None and order(upto) < (0, -1):
        return 0, None
    if upto is not None and tb is not None and order(upto) > order(tb):
        return 0, "ValueError"
    if upto is None:
        n = 1 if n is None else n
        if tb is not None and tb[0] < n:
            return tb[0], "RuntimeError"
        return n, None
    return (upto[0] if n is None else min(n, upto[0])), None


def label(n, upto, tb):
    sh = lambda p: f"t{p[0]:+d}" + ("" if p[1] is None else f"+d{p[1]}")
    a = [f"n={n}"] if n is not None else []
    a += [f"upto_t={sh(upto)}"] if upto is not None else []
    return "(" + ", ".join(a) + ")" + (f" with t_bound={sh(tb)}" if tb else "")


def arguments(T, n, upto):
    kw = {}
    if n is not None:
        kw["n"] = n
    if upto is not None:
        kw["upto_t"] = T.g.place(upto)
    return kw


def placements(name, deep):
    for tb in TB:
        for n in NS:
            for upto in UPTO:
                if name == "ForwardEuler" or deep:
                    yield tb, n, upto
                elif tb in (None, (1, None), (2, 1)) and n in (None, 2) and upto in (None, (-1, 1), (1, None), (1, 1), (3, 0)):
                    yield tb, n, upto


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        tracks = {}
        with rep.unit(key, w, "returns"):
            for tb, n, upto in placements(name, deep):
                if tb not in tracks:
                    tracks[tb] = Track(w, name, "auto", tb=Grid().place(tb) if tb else None)
                T = tracks[tb]
                steps, exc = spec(n, upto, tb)
                for meth in ("step", "skip"):
                    out = T.drive(lambda st: w.method(st, T.sol, meth, **arguments(T, n, upto)))
                    what = meth + label(n, upto, tb)
                    rep.ob(f"{key}/{meth}/outcome", out.exc == exc,
                           f"{what}: {out.exc or 'returns'}, expected {exc or 'to return'}",
                           str(out.raised[-1][2]) if out.raised else "")
                    if out.exc == exc:
                        rep.ob(f"{key}/{meth}/steps-taken", same(out.state(), T.rec(steps)),
                               f"{what}: ends at {out.final('t')!r}, not after {steps} steps")
                    if meth == "skip" and out.ok:
                        rep.ob(f"{key}/skip/returns-nothing", out.value is None, f"{what} returns {out.value!r}")
                    rep.count("calls_analysed")
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C09", tier,
                 "Abstract interpretation of step() and skip() on every solver with n, upto_t and t_bound absent or placed "
                 "symbolically in the step intervals (before, at, between step times); outcome (return, ValueError, "
                 "RuntimeError) and final time, state and derivative are compared with those of undriven steps.",
                 ["real arithmetic", "up to 3 steps per call; the drivers are uniform in the number of steps",
                  "variable-step solvers on rhs that are constant in t and y (every trial accepted)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
