"""C07: every successful step appends exactly one consistent (t, y, f) record to the history."""
from __future__ import annotations

from ..harness import *
from ..nf import NF, and_, app, cmp_, entails, POS
from ..report import Report
from ..values import Arr, lift


def records(w, st, sol, n):
    """history as [(t, y, f)], oldest first"""
    cache = w.attr(st, sol, "cache")
    cols = []
    for a in ("ts", "ys", "fs"):
        arr = w.attr(st, cache, a)
        cols.append([w.val(st, w.itp.getitem(st, arr, i)) for i in range(n)])
    return list(zip(*cols))


def sn(x):
    return snap(x, 12)


def scalar_time(w, st, sol, rep, key):
    t = w.attr(st, sol, "t")
    rep.ob(f"{key}/time-is-scalar", not isinstance(t, Arr) or t.shape == (), f"t is {t!r}")


def check_step(rep, w, key, cls, st, sol, steps, rhs="f"):
    """`steps` consecutive steps from the current abstract history"""
    n = w.const(st, cls, "LEN_HISTORY")
    for k in range(steps):
        old = records(w, st, sol, n)
        w.itp.sinks[:] = [[]]
        w.method(st, sol, "skip")
        raised = list(w.itp.sinks[-1])
        new = records(w, st, sol, n)
        what = f"{key}/step{k + 1}" if k else key
        for i in range(n - 1):
            rep.ob(f"{what}/older-records-shift", sn(new[i]) == sn(old[i + 1]),
                   f"after a step, record {i - n + 1} is {new[i]!r}, not the previous record {i - n + 2}"[:400])
        t, y, f = new[-1]
        g = st.guard
        for gl, x in cases(st, t):
            rep.ob(f"{what}/time-advances", entails(and_(g, gl), gt(NF.of(x), NF.of(old[-1][0]))),
                   f"new time {x!r} is not later than {old[-1][0]!r}")
        for a, v in zip(("t", "y", "f"), new[-1]):
            got = w.val(st, w.attr(st, sol, a))
            rep.ob(f"{what}/current-{a}", sn(got) == sn(v), f"solver.{a} is {got!r}, the last record holds {v!r}"[:400])
        want = lift(lambda T, Y: NF.of(app(rhs, NF.of(T), NF.of(Y), kind="v")), t, y)
        rep.ob(f"{what}/derivative-of-record", sn(f) == sn(want),
               f"the recorded derivative {f!r} is not the rhs at the recorded point"[:400])
        for rs, exc, wh in raised:
            rep.ob(f"{what}/raise-keeps-history", sn(tuple(records(w, rs, sol, n))) == sn(tuple(old)),
                   f"the history changed although the step raised {exc.name}", str(wh))
            rep.count("raising_paths")
        rep.count("steps_analysed")
        rep.count("records_compared", n)


def run(rep, root, deep, no_numba=False):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name, cls in sorted(w.solver_classes().items()):
        key = tag + name
        with rep.unit(key, w, "step-returns"):
            # after construction: the initial record, as often as the history is long
            st = w.fork()
            sol = make(w, st, cls)
            n = w.const(st, cls, "LEN_HISTORY")
            rep.ob(f"{key}/history-length", isinstance(n, int) and n >= 2, f"history length {n!r}")
            t0, y0 = S("t0"), Vv("y0")
            first = (t0, y0, NF.of(app("f", t0, y0, kind="v")))
            rep.ob(f"{key}/initial-record", sn(tuple(records(w, st, sol, n))) == sn((first,) * n),
                   "the history of a new solver is not its initial time, state and derivative")
            for a, v in zip("tyf", first):
                rep.ob(f"{key}/initial-{a}", sn(w.val(st, w.attr(st, sol, a))) == sn(v), f"initial {a} differs")
            scalar_time(w, st, sol, rep, key)
            if cls.name not in EMBEDDED:
                check_step(rep, w, f"{key}/fresh", cls, st.fork(), sol, min(n + 1, 7) if deep else 2)
            else:
                check_step(rep, w, f"{key}/fresh", cls, st.fork(), sol, 1)
            # from a generic history
            st = w.fork()
            sol = make(w, st, cls)
            fill_history(w, st, sol, cls)
            check_step(rep, w, key, cls, st, sol, 1)
            done += 1
    rep.need(f"{tag}solvers", done, 26)
    return w


EMBEDDED = ("RungeKutta23", "RungeKutta45", "DOP853")


def main(tier, root):
    rep = Report("C07", tier,
                 "Abstract interpretation of construction and of one or more skip() of every solver with an uninterpreted "
                 "rhs and a generic history; the whole history before and after is compared record by record as normal "
                 "forms, on returning and on raising paths.",
                 ["real arithmetic; step sizes are positive",
                  "implicit solvers: root finders by contract (C03)"])
    return rep.finish(rep.parallel([(run, (root, tier == "thorough", nn)) for nn in (False, True)]))
