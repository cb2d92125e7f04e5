"""C21: the right-hand side is called as documented: rhs(t, y), or rhs(t, y, params)."""
from __future__ import annotations

import itertools

from ..driver import *
from ..report import Report
from ..values import leaves, Arr, ListV, Opaque
from .c13 import params_of


def recording(calls, const=None, f="f"):
    """an rhs that records how it is called and is otherwise f(t, y), or constant"""
    def call(itp, st, o, args, kw):
        calls.append((list(args), dict(kw), [M.val(itp, st, a) for a in args[:2]],
                      [M.val(itp, st, p) for p in params_of(itp, st, args[2])] if len(args) > 2 else None, itp.where))
        t, y = M.val(itp, st, args[0]), M.val(itp, st, args[1])
        if const is not None:
            return A.vec(itp, st, const, "rhs")
        v = lift(lambda *xs: NF.of(app(f, *[M.term(itp, st, x) for x in xs], kind="v")), t, y)
        return A.vec(itp, st, v, "rhs")
    return Opaque((f,), None, call, note="fn")


FORMS = ["none", "array", "tuple", "list", "scalar", "empty array", "empty list", "one"]


def give(w, st, form):
    ps = [S("p0"), S("p1")]
    if form == "none":
        return {}, None
    if form == "array":
        return {"params": A.alloc(w.itp, st, ps, (2,))}, ps
    if form == "tuple":
        return {"params": tuple(ps)}, ps
    if form == "list":
        return {"params": ListV(w.itp.new(st, tuple(ps)))}, ps
    if form == "empty array":
        return {"params": A.alloc(w.itp, st, [], (0,))}, []
    if form == "empty list":
        return {"params": ListV(w.itp.new(st, ()))}, []
    if form == "one":
        return {"params": A.alloc(w.itp, st, ps[:1], (1,))}, ps[:1]
    return {"params": ps[0]}, ps[:1]


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    itp = w.itp
    done = 0
    for name in select(w, shard):
        key = tag + name
        cls = w.solver_classes()[name]
        multistep = family(cls) in ("AdamsBashforth", "AdamsMoulton", "BDF", "Multistep")
        with rep.unit(key, w, "returns"):
            results = {}
            consts = [None] if name not in PAIRS else [None, NF({}) if name == "DOP853" else Vv("c")]
            for form, const in itertools.product(FORMS, consts):
                for positional in ((False, True) if form == "array" else (False,)):
                    calls = []
                    st = w.fork()
                    st.guard = Grid().facts
                    itp.loopinfo.clear()
                    kw, want = give(w, st, form)
                    if name in PAIRS:
                        kw["max_step"] = H
                    y0 = A.vec(itp, st, Vv("y0"))
                    f = recording(calls, const)
                    if positional:
                        p = kw.pop("params")
                        kw.update(first_stepper_cls=None) if multistep else None
                        kw["h" if is_fixed(w, st, cls) else "first_step"] = H
                        sol = w.call(st, cls, f, S("tn"), y0, p, **kw)
                    else:
                        sol = make(w, st, cls, f=f, t0=S("tn"), y0=y0, **kw)
                    state = [tuple(w.val(st, w.attr(st, sol, a)) for a in ("t", "y", "f"))]
                    w.method(st, sol, "skip")
                    state.append(tuple(w.val(st, w.attr(st, sol, a)) for a in ("t", "y", "f")))
                    if name not in PAIRS or const is not None:
                        w.method(st, sol, "step", n=2)
                        state.append(tuple(w.val(st, w.attr(st, sol, a)) for a in ("t", "y", "f")))
                    if name not in PAIRS or deep:
                        w.val(st, w.method(st, sol, "interpolate", w.attr(st, sol, "t")))
                    rep.ob(f"{key}/called", bool(calls), f"the right-hand side is never called (params: {form})")
                    for args, kws, ty, ps, where in calls:
                        loc = f"{where[0]}:{where[1]}"
                        rep.ob(f"{key}/arity", len(args) == (2 if want is None else 3) and not kws,
                               f"rhs called with {len(args)} positional and {len(kws)} keyword arguments (params: {form})", loc)
                        rep.ob(f"{key}/scalar-time", not isinstance(args[0], Arr) or args[0].ndim == 0,
                               "rhs called with a time that is not a scalar", loc)
                        y = itp.prune(st, args[1])
                        rep.ob(f"{key}/vector-state", all(isinstance(x, Arr) and x.is_vec for x in leaves(y)),
                               f"rhs called with a state that is not an array of the system's dimension: {y!r}", loc)
                        rep.ob(f"{key}/params", ps == want, f"rhs called with params {ps}, given {want}", loc)
                    rep.count("rhs_calls", len(calls))
                    if const is not None or name not in PAIRS:
                        results[form, positional] = state
            first = results["none", False]
            for k, s in results.items():
                rep.ob(f"{key}/same-solution-with-params", s == first,
                       f"with params given as {k[0]} the solution differs from that of the same rhs without params")
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C21", tier,
                 "Abstract interpretation of construction, steps and interpolation of every solver with params absent or given "
                 "as array, tuple, list, scalar, by keyword and position; arguments of every abstract rhs call are "
                 "inspected and the resulting normal forms are compared with those without params.",
                 ["real arithmetic", "calls made inside SciPy's select_initial_step are outside",
                  "root finders by contract (C03)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
