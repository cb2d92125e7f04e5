"""C01: one step of every linear multistep method is the classical full-order formula."""
from __future__ import annotations

from fractions import Fraction

from ..harness import *
from ..nf import NF, app
from ..report import Report

FORMULAS = {  # the catalogue a user sees: name -> (family, number of past states used)
    **{f"AdamsBashforth{k}": ("AB", k) for k in range(1, 6)},
    "ForwardEuler": ("AB", 1),
    "AdamsMoulton1": ("AM", 0), "BackwardEuler": ("AM", 0),
    **{f"AdamsMoulton{k}": ("AM", k - 1) for k in range(2, 6)},
    **{f"BDF{k}": ("BDF", k) for k in range(1, 7)},
}


def poly_mul(p, q):
    r = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def lagrange(nodes, j):
    p = [Fraction(1)]
    for i, x in enumerate(nodes):
        if i != j:
            d = nodes[j] - x
            p = poly_mul(p, [Fraction(-x) / d, Fraction(1) / d])
    return p


def integrate01(p):
    return sum(c / (i + 1) for i, c in enumerate(p))


def deriv_at(p, x):
    return sum(c * i * Fraction(x) ** (i - 1) for i, c in enumerate(p) if i)


def adams(k, implicit):
    """weights of f at s = -(m-1) .. 0 (and 1): integral over [0,1] of the interpolant"""
    nodes = list(range(-(k - 1), 1)) if not implicit else list(range(-k + 1, 1)) + [1]
    if implicit and k == 0:
        nodes = [1]
    return {x: integrate01(lagrange(nodes, j)) for j, x in enumerate(nodes)}


def bdf(k):
    """y'(1) of the interpolant through s = -(k-1)..1, scaled so that y(1) has weight 1"""
    nodes = list(range(-(k - 1), 2))
    d = {x: deriv_at(lagrange(nodes, j), 1) for j, x in enumerate(nodes)}
    lead = d.pop(1)
    return {x: -v / lead for x, v in d.items()}, 1 / lead


def reference(fam, k, hist, h, Y, fY=None):
    """right-hand side of  y_new = ...  with Y standing for y_new in the implicit part"""
    ys = {i - len(hist) + 1: y for i, (_, y, _) in enumerate(hist)}
    fs = {i - len(hist) + 1: f for i, (_, _, f) in enumerate(hist)}
    tn = hist[-1][0]
    if fY is None:
        fY = NF.of(app("f", tn + h, Y, kind="v"))
    if fam == "BDF":
        al, be = bdf(k)
        out = h * fY.scale(be)
        for x, c in al.items():
            out = out + ys[x].scale(c)
        return out
    out = ys[0]
    for x, c in adams(k, fam == "AM").items():
        out = out + h * (fY if x == 1 else fs[x]).scale(c)
    return out


def close(a, b, tol=Fraction(1, 10 ** 13)):
    """equal up to coefficient rounding at the level of binary64 literals"""
    d = a - b
    return all(abs(c) <= tol for c in d.t.values())


def check_formula(rep, key, y_new, fam, k, hist, h):
    """y_new is the explicit formula, or the solution of the implicit one"""
    for g, leaf in y_new:
        leaf = NF.of(leaf)
        if fam == "AB":
            ref = reference(fam, k, hist, h, NF.const(0))
            rep.ob(f"{key}/formula", close(leaf, ref), f"y_new = {leaf.show(4)}; expected {ref.show(4)}")
            continue
        roots = [a for a in leaf.atoms() if a.key[0] == "app" and a.key[1] == "root"]
        if len(roots) != 1:
            rep.ob(f"{key}/formula", False, f"y_new = {leaf.show(4)} is not the solution of one implicit equation")
            continue
        # y_new = g(root) with g affine; the residual must be a non-zero multiple of the formula at g(Y?)
        root = roots[0]
        sp = split_linear(leaf, root)
        if sp is None or sp[1].is_const() is False or sp[1].const_val() == 0:
            rep.ob(f"{key}/formula", False, f"y_new = {leaf.show(4)} is not affine in the solved unknown")
            continue
        a, c = sp
        Y = a + c * NF.of(Y_HOLE)
        res = root.key[2]
        want = Y - reference(fam, k, hist, h, Y)
        ok = False
        lw = split_linear(want, Y_HOLE)
        lr = split_linear(res, Y_HOLE) if isinstance(res, NF) else None
        if lr and lw:
            cross = res * lw[1] - want * lr[1]
            ok = all(abs(v) <= Fraction(1, 10 ** 13) for v in cross.t.values()) and bool(lr[1].t)
        rep.ob(f"{key}/formula", ok,
               f"solves {res.show(5) if isinstance(res, NF) else res} = 0; expected {want.show(5)} = 0")


def run(rep, root, no_numba=False):
    w = World(root, no_numba)
    classes = w.solver_classes()
    tag = "nonumba:" if no_numba else ""
    n = 0
    for name in sorted(FORMULAS):
        fam, k = FORMULAS[name]
        key = f"{tag}{name}"
        if name not in classes:
            rep.error(f"{key}: solver not registered")
            continue
        cls = classes[name]
        with rep.unit(key, w, "step"):
            st = w.fork()
            rep.count("step_functions_lowered")
            sol = make(w, st, cls)
            hist = fill_history(w, st, sol, cls)
            w.method(st, sol, "skip")
            y = w.val(st, w.attr(st, sol, "y"))
            t = w.val(st, w.attr(st, sol, "t"))
            leaves_ = cases(st, y)
            check_formula(rep, key, leaves_, fam, k, hist, H)
            for _, tv in cases(st, t):
                rep.ob(f"{key}/time", NF.of(tv) == hist[-1][0] + H, f"t_new = {tv}")
            rep.sample(f"{name}: y_new = {NF.of(leaves_[0][1]).show(4)}")
            n += 1
    # any other registered linear multistep method is at least consistent with its own family
    extra = [c for c in classes if c not in FORMULAS and family(classes[c]) in ("AdamsBashforth", "AdamsMoulton", "BDF")]
    rep.count("multistep_solvers_without_reference", len(extra))
    rep.need(f"{tag}multistep solvers", n, 18)
    return w


def main(tier, root):
    rep = Report("C01", tier,
                 "Abstract interpretation of the whole package import and of skip() on every multistep solver with a "
                 "generic uniform history (symbolic times, states, step, uninterpreted rhs, symbolic dimension); the "
                 "stored state is a polynomial normal form over rhs applications and is compared, coefficient by "
                 "coefficient with exact rationals, with the formula derived by Lagrange interpolation.",
                 ["real arithmetic: literals are exact rationals, coefficient comparison to 1e-13",
                  "implicit solvers: root finders return a solution of the residual they are given (C03, C23)"])
    worlds = [run(rep, root), run(rep, root, True)]
    return rep.finish(worlds)
