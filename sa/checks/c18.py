"""C18: the capabilities a solver declares are those its steps show."""
from __future__ import annotations

from ..driver import *
from ..nf import all_atoms
from ..report import Report
from ..values import gated_leaves


def symbols(v):
    """every atom below a value"""
    out = set()
    todo = [NF.of(x) for _, x in gated_leaves(v)]
    for x in todo:
        out |= set(all_atoms(x))
    return out


def solves_equation(v):
    return any(a.key[0] == "app" and a.key[1] == "root" for a in symbols(v))


def history_used(s):
    """which records before the current one the new state depends on"""
    used = set()
    for a in symbols(s.y_new):
        for k, (t, y, f) in enumerate(s.hist[:-1]):
            if NF.of(a) == y:
                used.add(len(s.hist) - 1 - k)
    return used


def behaviour(rep, w, key, name, cls):
    """what one step, and a second one, do"""
    if name in PAIRS:
        from ..embedded import Embedded
        s = Embedded(w, cls, name).step
    else:
        s = Step(w, cls)
    st = s.st
    implicit = solves_equation(s.y_new)
    advances = {NF.of(x) - s.tn for _, x in cases(st, s.t_new)}
    fixed = advances == {NF.of(H)}
    if fixed and name not in PAIRS:
        t1 = s.t_new
        w.method(st, s.sol, "skip")
        t2 = w.val(st, w.attr(st, s.sol, "t"))
        fixed = all(NF.of(y) - NF.of(x) == NF.of(H) for _, x in cases(st, t1) for _, y in cases(st, t2))
    return s, implicit, fixed


def run(rep, root, deep, no_numba=False):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    facts = {}
    classes = w.solver_classes()
    for name in sorted(classes):
        cls, key = classes[name], tag + name
        with rep.unit(key, w, "returns"):
            s, implicit, fixed_ = behaviour(rep, w, key, name, cls)
            st = s.st
            for where, o in (("class", cls), ("instance", s.sol)):
                v = w.itp.getattr(st, o, "IMPLICIT")
                rep.ob(f"{key}/implicit", v is implicit,
                       f"IMPLICIT of the {where} is {v!r}, but the new state is " + ("the solution of an equation" if implicit
                                                                                    else "computed directly"))
                v = w.itp.getattr(st, o, "FIXED_STEP")
                rep.ob(f"{key}/fixed", v is fixed_,
                       f"FIXED_STEP of the {where} is {v!r}, but its steps " + ("always" if fixed_ else "do not always") + " advance by h")
            used = history_used(s)
            facts[name] = (implicit, fixed_, used)
            rep.sample(f"{key}: implicit={implicit} fixed={fixed_} older records used={sorted(used)}")
            rep.count("solvers_analysed")
    with rep.unit(tag + "filters", w, "returns"):
        st = w.fork()
        ask = lambda **k: {c.name for c in w.itp.iter_items(st, w.call(st, w.attr(st, w.nb, "get_solvers"), **k))}
        for x in (True, False):
            for what, i in (("implicit", 0), ("fixed_step", 1)):
                got, want = ask(**{what: x}), {n for n in facts if facts[n][i] is x}
                rep.ob(f"{tag}filter/{what}", got == want, f"get_solvers({what}={x}) differs from the solvers that behave so in "
                       f"{sorted(got ^ want)}")
        got = ask(runge_kutta=True)
        for n in sorted(got):
            rep.ob(f"{tag}filter/one-step", n in facts and not facts[n][2],
                   f"get_solvers(runge_kutta=True) contains {n}, whose steps depend on records before the current one")
        several = {n for n in facts if facts[n][2]}
        missing = several - ask(multistep=True)
        rep.ob(f"{tag}filter/multistep", not missing, f"get_solvers(multistep=True) misses {sorted(missing)}, whose steps use "
               "several records")
        both = got & ask(multistep=True)
        rep.ob(f"{tag}filter/exclusive", not both, f"{sorted(both)} are both Runge-Kutta and multistep")
    rep.need(f"{tag}solvers", len(facts), 26)
    return w


def main(tier, root):
    rep = Report("C18", tier,
                 "Abstract interpretation of one and two generic steps of every solver; whether the new state is the solution of an "
                 "equation, whether every path advances by h, and which records the new state depends on are read off the normal "
                 "forms and compared with IMPLICIT, FIXED_STEP and the filters of get_solvers.",
                 ["real arithmetic", "root finders by contract (C03)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel([(run, (root, deep, nn)) for nn in (False, True)]))
