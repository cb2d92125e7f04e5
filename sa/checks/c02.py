"""C02: every Runge-Kutta solver advances with a scheme of its documented order."""
from __future__ import annotations

from fractions import Fraction

from ..harness import *
from ..report import Report
from ..trees import order_defects, trees

ORDER = {"Runge2": 2, "Runge3": 3, "Heun3": 3, "RungeKutta4": 4, "RungeKutta3_8": 4,
         "RungeKutta23": 3, "RungeKutta45": 5, "DOP853": 8}
TOL = Fraction(1, 10 ** 11)


def show_tree(t):
    return "[" + "".join(show_tree(s) for s in t) + "]"


def run(rep, root, no_numba=False):
    w = World(root, no_numba)
    classes = w.solver_classes()
    tag = "nonumba:" if no_numba else ""
    found = 0
    for name, p in ORDER.items():
        key = tag + name
        if name not in classes:
            rep.error(f"{key}: solver not registered")
            continue
        with rep.unit(key, w, "step"):
            s = Step(w, classes[name])
            found += 1
            try:
                mu = s.mu()
                if s.fixed:
                    rep.ob(f"{key}/step", mu == H, f"advances time by {mu.show(3)} instead of the step size")
                stages, index, b = tableau(s.single(s.y_new, "new state"), mu, s.tn, s.yn)
            except NotRK as e:
                rep.ob(f"{key}/form", False, f"not a Runge-Kutta step: {e}")
                continue
            rep.ob(f"{key}/form", True)
            rep.count("stages", len(stages))
            A_ = matrix(stages, index)
            first = [a for a, c, row in stages if c == 0 and not row]
            rep.ob(f"{key}/explicit", all(j < i for i, (_, _, row) in enumerate(stages) for j in
                                         (index[x] for x in row)), "a stage depends on itself")
            bv = [b.get(a, Fraction(0)) for a, _, _ in stages]
            for i, (a, c, row) in enumerate(stages):
                d = sum(A_[i], Fraction(0)) - c
                rep.ob(f"{key}/row-sum/{i}", abs(d) <= TOL, f"stage {i} at c={float(c):.6g} has row sum off by {float(d):.3g}")
            rep.count("order_conditions", 0)
            for t, d in order_defects(A_, bv, p):
                rep.count("order_conditions")
                rep.ob(f"{key}/order/{show_tree(t)}", abs(d) <= TOL, f"order condition violated by {float(d):.3g}")
            rep.sample(f"{name}: {len(stages)} stages, first stage f(tn,yn): {bool(first)}, order {p}")
    rep.need(f"{tag}Runge-Kutta solvers", found, 8)
    others = [n for n, c in classes.items() if family(c) == "RungeKutta" and n not in ORDER]
    rep.count("runge_kutta_without_reference", len(others))
    return w


def main(tier, root):
    rep = Report("C02", tier,
                 "Abstract interpretation of the package import and of one skip() of every Runge-Kutta solver with "
                 "symbolic time, state, step and an uninterpreted rhs; the Butcher tableau is read off the nested rhs "
                 "applications in the stored state and all rooted-tree order conditions up to the documented order "
                 "are decided with exact rationals.",
                 ["real arithmetic; literals exact; tolerance 1e-11 on each order condition (published decimals)"])
    worlds = [run(rep, root), run(rep, root, True)]
    return rep.finish(worlds)
