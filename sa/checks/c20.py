"""C20: a multistep solver starts from a uniform history computed by its first stepper."""
from __future__ import annotations

from fractions import Fraction

from ..driver import *
from ..nf import sat
from ..published_names import EULER, MULTISTEP
from ..report import Report
from ..values import Opaque
from .c07 import records

T0 = S("tn")


def order_of(name):
    """records the formula of that name needs"""
    if name in EULER:
        return 1
    fam, k = MULTISTEP[name]
    return max(k - 1, 1) if fam == "AdamsMoulton" else k


def build(w, st, cls, f, starter="absent", h=H, **kw):
    if starter != "absent":
        kw["first_stepper_cls"] = starter
    return w.call(st, cls, f, T0, A.vec(w.itp, st, Vv("y0")), h=h, **kw)


def attempt(w, st, cls, f, starter="absent", **kw):
    """-> (solver or None, exception names that can occur, where)"""
    w.itp.loopinfo.clear()
    w.itp.effects.clear()
    ok, sol, raised, _ = w.capture(st, lambda s: build(w, s, cls, f, starter, **kw))
    live = [(e.name, wh) for s, e, wh in raised if sat(s.guard)]
    return (sol if ok else None), live


def now(w, st, sol):
    return tuple(w.val(st, w.attr(st, sol, a)) for a in ("t", "y", "f"))


def first_step(w, factor):
    """SciPy's choice of the first step, fixed to a multiple of h"""
    w.itp.exthooks["scipy.integrate._ivp.common.select_initial_step"] = lambda itp, st, a, k: H.scale(Fraction(factor))


def affine(slope):
    """the right-hand side slope(t)"""
    def call(itp, st, o, args, kw):
        return A.vec(itp, st, lift(slope, M.val(itp, st, args[0])), "rhs")
    return Opaque(("c+td", "affine"), None, call, note="fn")


def starters(deep):
    out = ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8", "ForwardEuler", "BackwardEuler", "AdamsBashforth1",
           "AdamsMoulton2", "BDF1"]
    return out if deep else ["RungeKutta4", "Heun3", "ForwardEuler", "BackwardEuler"]


def run(rep, root, deep, no_numba=False, part=0):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    itp = w.itp
    classes = w.solver_classes()
    names = [n for n in sorted([*MULTISTEP, *EULER]) if n in classes]
    rep.need(f"{tag}multistep solvers", len(names), 18)
    f = opaque_fn("f")
    g = Grid(2)

    def fresh():
        st = w.fork()
        st.guard = g.facts
        return st

    for name in names[part::2]:
        cls, key, k = classes[name], tag + name, order_of(name)
        n = w.const(w.st, cls, "LEN_HISTORY")
        first = (T0, Vv("y0"), NF.of(app("f", T0, Vv("y0"), kind="v")))

        def history(st, sol, want, what, rule):
            if sol is None:
                return
            got = records(w, st, sol, n)
            rep.ob(f"{key}/{rule}", len(got) >= len(want) and all(same(a, b) for a, b in zip(got[-len(want):], want)),
                   f"{what}: history {[r[0] for r in got]} / {[r[1] for r in got]}, not the first stepper's solution at "
                   f"{[x[0] for x in want]}" if [tuple(r[:2]) for r in got][-len(want):] != [x[:2] for x in want] else
                   f"{what}: the recorded derivatives are not those at the recorded points")
            rep.ob(f"{key}/stands", all(same(a, b) for a, b in zip(now(w, st, sol), want[-1])),
                   f"{what}: the solver does not stand at the last start-up point: t = {now(w, st, sol)[0]}")
            rep.count("start_ups")

        with rep.unit(key, w, "returns"):
            # no first stepper, or none needed
            for what in (["None"] if k > 1 else ["None", "auto", "absent", "RungeKutta4"]):
                st = fresh()
                sol, live = attempt(w, st, cls, f, None if what == "None" else what)
                rep.ob(f"{key}/returns", sol is not None and not live, f"first_stepper_cls={what}: construction raises {live}")
                history(st, sol, [first] * n, f"first_stepper_cls={what}", "no-start-up")
            if k == 1:
                st = fresh()
                st.guard = and_(st.guard)
                sol, live = attempt(w, st, cls, f, t_bound=T0)
                rep.ob(f"{key}/bound", sol is not None and not live, f"no start-up is needed, but with t_bound = t0 construction raises {live}")
        if k == 1:
            continue
        # ------------------------------------------------ one-step fixed starters, any right-hand side
        for s in starters(deep):
            scls = classes.get(s)
            if scls is None:
                continue
            with rep.unit(f"{key}/{s}", w, "returns"):
                ref = fresh()
                rs = make(w, ref, scls, f=f, t0=T0, y0=A.vec(itp, ref, Vv("y0")))
                want = [first]
                for _ in range(k - 1):
                    w.method(ref, rs, "skip")
                    want.append(now(w, ref, rs))
                for what, st_cls in (("class", scls), ("name", s)):
                    st = fresh()
                    sol, live = attempt(w, st, cls, f, st_cls)
                    rep.ob(f"{key}/returns", sol is not None and not live,
                           f"first_stepper_cls={s} by {what}: construction raises {live}")
                    history(st, sol, want, f"first_stepper_cls={s} by {what}", "fixed-starter")
        # ---------------------------------------- variable-step and multistep starters, constant right-hand side
        c = const_rhs("c")
        line = [(T0 + H.scale(j), Vv("y0") + H.scale(j) * Vv("c"), Vv("c")) for j in range(k)]
        calls = {}
        for factor in ("1/2", 1, 3) if not deep else ("1/3", "1/2", 1, 2, 3, 7):
            first_step(w, factor)
            for s in ("absent", "auto", "RungeKutta45", "RungeKutta23", "AdamsBashforth2", "BDF3", "AdamsMoulton4") + (
                    ("BDF6", "AdamsBashforth5") if deep else ()):
                for by in ("name", "class"):
                    if by == "class" and s not in classes:
                        continue
                    if by == "class" and s in MULTISTEP and not deep:
                        continue
                    with rep.unit(f"{key}/{s}", w, "returns"):
                        st = fresh()
                        sol, live = attempt(w, st, cls, c, classes[s] if by == "class" else s)
                        calls[s, by, factor] = [e.data[1] for e in itp.effects if e.kind == "rhs"]
                        what = f"first_stepper_cls={s} by {by} (rhs constant, first step {factor} h)"
                        rep.ob(f"{key}/returns", sol is not None and not live, f"{what}: construction raises {live}")
                        history(st, sol, line, what, "starter")
            ref = calls.get(("RungeKutta45", "class", factor))
            for s in ("absent", "auto"):
                rep.ob(f"{key}/default", calls.get((s, "name", factor)) == ref and bool(ref),
                       f"first_stepper_cls {s} does not evaluate the right-hand side as RungeKutta45 does")
        # ------------------------------------------- right-hand sides linear in time, of which embedded pairs are exact
        cv, dv = Vv("c"), Vv("d")
        slope = lambda t: cv + NF.of(t) * dv
        curve = [(t, Vv("y0") + (t - T0) * cv + ((t * t - T0 * T0) * dv).scale(Fraction(1, 2)), slope(t))
                 for t in (T0 + H.scale(j) for j in range(k))]
        for factor in ("1/2", 1, 3) if not deep else ("1/3", "1/2", 1, 2, 3, 7):
            first_step(w, factor)
            for s in ("absent", "RungeKutta45", "RungeKutta23"):
                with rep.unit(f"{key}/{s}", w, "returns"):
                    st = fresh()
                    sol, live = attempt(w, st, cls, affine(slope), s)
                    what = f"first_stepper_cls={s} (rhs linear in time, first step {factor} h)"
                    rep.ob(f"{key}/returns", sol is not None and not live, f"{what}: construction raises {live}")
                    history(st, sol, curve, what, "starter")
        itp.exthooks.pop("scipy.integrate._ivp.common.select_initial_step", None)
        # ------------------------------------- derivatives recorded by a variable-step starter, any right-hand side
        with rep.unit(f"{key}/derivatives", w, "returns"):
            st = fresh()
            modelled = k <= 3
            try:
                sol, live = attempt(w, st, cls, f) if modelled else (None, None)
            except Unsupported:
                # a second free number of steps in one loop; the right-hand sides above cover this solver
                if k <= 2:
                    raise
                modelled = False
                rep.count("start_ups_not_modelled")
            if modelled and rep.ob(f"{key}/returns", sol is not None, f"construction raises {live}"):
                for j, (t, y, fy) in enumerate(records(w, st, sol, n)[-k:]):
                    rep.ob(f"{key}/times", same(t, T0 + H.scale(j)), f"start-up point {j} is recorded at {t}, not at t0 + {j} h")
                    at = lift(lambda a, b: NF.of(app("f", NF.of(a), NF.of(b), kind="v")), t, y)
                    rep.ob(f"{key}/derivatives", same(fy, at), f"the derivative recorded at start-up point {j} is not the "
                           "right-hand side at its time and state")
        # ---------------------------------------------------------------------------------- t_bound
        first_step(w, 1)
        last = T0 + H.scale(k - 1)
        for what, tb, fits in (("before the last start-up point", last - H + g.off[0], False), ("at the first", T0, False),
                               ("just before the last start-up point", last - g.off[0], False),
                               ("at the last start-up point", last, True), ("after the last start-up point", last + g.off[0], True)):
            for s in ("absent", "RungeKutta4", "AdamsBashforth2"):
                with rep.unit(f"{key}/bound", w, "returns"):
                    st = fresh()
                    sol, live = attempt(w, st, cls, c, s, t_bound=tb)
                    if fits:
                        rep.ob(f"{key}/bound", sol is not None and not live, f"t_bound {what}: construction raises {live}")
                        history(st, sol, line, f"t_bound {what}, first_stepper_cls={s}", "starter")
                    else:
                        rep.ob(f"{key}/bound", sol is None and {e for e, _ in live} == {"ValueError"},
                               f"t_bound {what} (first_stepper_cls={s}): " + (
                                   "the solver starts beyond t_bound" if sol is not None else f"raises {live}, not ValueError"))
            with rep.unit(f"{key}/bound", w, "returns"):
                st = fresh()
                sol, live = attempt(w, st, cls, c, None, t_bound=tb)
                rep.ob(f"{key}/bound", sol is not None and not live,
                       f"no start-up is requested, but with t_bound {what} construction raises {live}")
        itp.exthooks.pop("scipy.integrate._ivp.common.select_initial_step", None)
    return w


def main(tier, root):
    rep = Report("C20", tier,
                 "Abstract interpretation of the construction of every multistep solver with every kind of first stepper; recorded "
                 "times, states and derivatives are compared, as normal forms, with steps of that first stepper from the "
                 "initial condition; t_bound is placed symbolically before, at and after the last start-up point.",
                 ["real arithmetic", "states computed by variable-step and multistep first steppers: rhs constant in t and y, first "
                  "step chosen by SciPy a multiple of h", "root finders by contract (C03)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel([(run, (root, deep, nn, i)) for nn in (False, True) for i in (0, 1)]))
