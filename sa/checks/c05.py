"""C05: the next step size follows the controller, never exceeds max_step, and a step that cannot shrink raises."""
from __future__ import annotations

from ..embedded import *
from ..report import Report


def next_values(e, st, loc):
    return e.w.itp.read_loc(st, loc)


def controller_rules(rep, key, e):
    s = e.step
    lp = e.loop()
    rep.ob(f"{key}/trial-loop", lp is not None, "rejected trials are not retried with another step size")
    if lp is None:
        return 0
    info, loc, d = lp
    where = f"{info.where[0]}:{info.where[1]}"
    facts = e.facts
    ref = sn(e.next_h)
    entry = e.w.itp.read_loc(info.entry, loc)
    rep.ob(f"{key}/first-trial", entry == H, f"the first trial uses step {entry!r}, not the solver's current step", where)
    # after acceptance: the solver's step size
    h_after = sn(s.w.val(s.st, s.w.attr(s.st, s.sol, "h")))
    for st in info.exits:
        n, bad = same_values(h_after, ref, and_(facts, sn(st.guard)))
        rep.count("accepted_step_cases", n)
        rep.ob(f"{key}/next-step-after-acceptance", n > 0 and not bad, describe(bad), where)
    rep.ob(f"{key}/max-step", bounded(h_after, e, sn(s.st.guard)),
           "the next step size can exceed max_step", where)
    if info.back is not None:
        g = and_(facts, sn(info.back.guard))
        hb = sn(e.w.itp.read_loc(info.back, loc))
        n, bad = same_values(hb, ref, g)
        rep.count("rejected_step_cases", n)
        rep.ob(f"{key}/next-step-after-rejection", n > 0 and not bad, describe(bad), where)
        rep.ob(f"{key}/max-step-after-rejection", bounded(hb, e, g), "a retry can exceed max_step", where)
        mins = smaller = True
        for gl, x in gated_leaves(hb):
            gx = and_(g, gl)
            if not sat(gx):
                continue
            mins &= entails(gx, ge(NF.of(x), e.o["min_step"]))
            smaller &= entails(gx, gt(s.tn + NF.of(x), s.tn))
        rep.ob(f"{key}/min-step", mins, "a trial is repeated with a step below min_step instead of raising", where)
        rep.ob(f"{key}/progress", smaller, "a trial is repeated with a step that cannot advance time", where)
    rep.ob(f"{key}/too-small-raises", any(exc.name == "RuntimeError" for _, exc, _ in s.raised),
           "no RuntimeError when the required step is too small", where)
    for rs, exc, rw in s.raised:
        hr = sn(e.w.itp.read_loc(rs, loc)) if loc[0] in rs.heap else None
        if hr is None:
            continue
        bad = False
        for gl, x in gated_leaves(hr):
            gx = and_(facts, sn(rs.guard), gl)
            if sat(gx) and not entails(gx, or_(gt(e.o["min_step"], NF.of(x)), ge(s.tn, s.tn + NF.of(x)))):
                bad = True
        rep.ob(f"{key}/raise-only-when-too-small", not bad,
               f"{exc.name} can be raised although the next step is large enough", str(rw))
    rep.sample(f"{key}: next step after acceptance {h_after!r}"[:300])
    return 1


def run(rep, root, no_numba=False):
    w = World(root, no_numba)
    classes = w.solver_classes()
    tag = "nonumba:" if no_numba else ""
    found = 0
    for name in PAIRS:
        key = tag + name
        if name not in classes:
            rep.error(f"{key}: solver not registered")
            continue
        with rep.unit(key, w, "step"):
            try:
                e = Embedded(w, classes[name], name)
                ok = sn(e.step.single(e.step.y_new, "new state")) == sn(e.y_ref)
            except NotRK as x:
                ok = False
            if not ok:
                rep.error(f"{key}: the step is not the published scheme, its controller cannot be anchored")
                continue
            found += controller_rules(rep, key, e)
    rep.need(f"{tag}variable-step solvers", found, 3)
    initial(rep, w, tag)
    return w


def initial(rep, w, tag):
    """the first step never exceeds max_step either, given or selected"""
    classes = w.solver_classes()
    for name in PAIRS:
        if name not in classes:
            continue
        key = f"{tag}{name}/initial"
        with rep.unit(key, w, "constructed"):
            for given in (True, False):
                st = w.fork()
                o = {k: S(k, "pos") for k in OPTIONS}
                st.guard = ge(o["rtol"], Fraction(100, 2 ** 52))
                sol = make(w, st, classes[name], h=H if given else None, **o)
                h = w.val(st, w.attr(st, sol, "h"))
                ok = all(entails(and_(st.guard, g), ge(o["max_step"], NF.of(x)))
                         for g, x in gated_leaves(h) if sat(and_(st.guard, g)))
                rep.ob(f"{key}/max-step/{'given' if given else 'selected'}", ok,
                       f"the initial step {h!r} can exceed max_step"[:300])
                if given:
                    ok = all(not entails(and_(st.guard, g), gt(o["max_step"], H)) or NF.of(x) == H
                             for g, x in gated_leaves(h) if sat(and_(st.guard, g, gt(o["max_step"], H))))
                    small = and_(st.guard, ge(o["max_step"], H))
                    n, bad = same_values(h, H, small)
                    rep.ob(f"{key}/first-step", n > 0 and not bad, f"first_step is not the first step: {h!r}"[:300])


def bounded(v, e, g):
    if e.o["max_step"] == INF:
        return True
    for gl, x in gated_leaves(v):
        gx = and_(e.facts, g, gl)
        if sat(gx) and not entails(gx, ge(e.o["max_step"], NF.of(x))):
            return False
    return True


def describe(bad):
    if not bad:
        return "no feasible case"
    g, x, y = bad[0]
    return f"next step {NF.of(x).show(2)[:160]}; controller gives {NF.of(y).show(2)[:160]} when {str(g)[:200]}"


def main(tier, root):
    rep = Report("C05", tier,
                 "Abstract interpretation of one skip() of each embedded pair with symbolic options: the loop-carried "
                 "step size on the accept and retry edges is compared, case by case over its gated normal form, with "
                 "the reference controller min(h*clamp(safety*norm^(-1/(q+1))), max_step); entailment shows that every "
                 "retried step is at least min_step, advances time and stays below max_step.",
                 ["real arithmetic; coefficients compared to 12 significant digits",
                  "options within their documented ranges (positive, min_factor < 1 < max_factor)"])
    return rep.finish([run(rep, root), run(rep, root, True)])
