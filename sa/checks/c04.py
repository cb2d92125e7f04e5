"""C04: a trial step is accepted exactly when the embedded error estimate is within tolerance."""
from __future__ import annotations

from ..embedded import *
from ..report import Report


def accept_rules(rep, key, e, f_new=None):
    s = e.step
    lp = e.loop()
    rep.ob(f"{key}/trial-loop", lp is not None,
           "the step size of the accepted step is not carried by a trial loop: no rejected trial is retried")
    if lp is None:
        return
    info, loc, d = lp
    where = f"{info.where[0]}:{info.where[1]}"
    if f_new is not None:
        rep.ob(f"{key}/stored-derivative", sn(f_new) == sn(e.ks[-1]),
               f"the stored derivative is {f_new.show(2)}, not rhs at the new point", where)
    acc = sn(e.accept)
    facts = e.facts
    for i, ex in enumerate(info.exits):
        g = sn(ex.guard)
        rep.ob(f"{key}/accept-implies-tolerance", entails(and_(facts, g), acc),
               "a trial can be accepted although its error norm is not below 1", where)
    if info.back is not None:
        g = sn(info.back.guard)
        rep.ob(f"{key}/reject-implies-tolerance", entails(and_(facts, g), not_(acc)),
               "a trial can be rejected although its error norm is below 1", where)
    rep.ob(f"{key}/reject-exists", info.back is not None, "no trial is ever rejected", where)
    for n, (rs, exc, rw) in enumerate(s.raised):
        g = sn(rs.guard)
        rep.ob(f"{key}/raise-implies-rejected/{exc.name}", entails(and_(facts, g), not_(acc)),
               f"{exc.name} can be raised for a trial within tolerance", str(rw))
    rep.count("trial_paths", len(info.exits) + 1 + len(s.raised))
    rep.sample(f"{key}: accept iff {sn(e.accept)!r}"[:400])


def run(rep, root, no_numba=False):
    w = World(root, no_numba)
    classes = w.solver_classes()
    tag = "nonumba:" if no_numba else ""
    found = 0
    for name in PAIRS:
        key = tag + name
        if name not in classes:
            rep.error(f"{key}: solver not registered")
            continue
        with rep.unit(key, w, "step"):
            try:
                e = Embedded(w, classes[name], name)
                s = e.step
                y_new = s.single(s.y_new, "new state")
                rep.ob(f"{key}/scheme", sn(y_new) == sn(e.y_ref), "the accepted state is not the published scheme's")
                f_new = s.single(s.f_new, "new derivative")
            except NotRK as x:
                rep.ob(f"{key}/scheme", False, str(x))
                continue
            found += 1
            accept_rules(rep, key, e, f_new)
    rep.need(f"{tag}variable-step solvers", found, 3)
    return w


def main(tier, root):
    rep = Report("C04", tier,
                 "Abstract interpretation of one skip() of each embedded pair with symbolic options; the path "
                 "conditions under which the trial loop leaves, repeats or raises are compared by logical entailment "
                 "with the acceptance rule built from the published error weights (error norm < 1, weighted RMS with "
                 "atol + rtol*max(|y_n|, |y_n+1|), DOP853's two-estimate combination).",
                 ["real arithmetic; coefficients compared to 12 significant digits",
                  "options within their documented ranges (positive, min_factor < 1 < max_factor)"])
    return rep.finish([run(rep, root), run(rep, root, True)])
