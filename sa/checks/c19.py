"""C19: with NBKODE_NONUMBA set everything gives the same results as with numba."""
from __future__ import annotations

import itertools

from ..embedded import Embedded
from ..events import *
from ..nf import sat
from ..report import Report
from ..values import Arr, Cls, ListV, SArr


def flat(w, st, v):
    """a value without its identity: arrays by shape and cells, lists by items"""
    v = w.itp.prune(st, v)
    if isinstance(v, Phi):
        return ("gate", v.cond, flat(w, st, v.a), flat(w, st, v.b))
    if isinstance(v, Arr):
        return ("array", tuple(v.shape), v.symax, tuple(w.val(st, c) for c in A.cells(w.itp, st, v)),
                w.itp.elem_cast.get(v.sid))
    if isinstance(v, (tuple, ListV)):
        return (type(v).__name__,) + tuple(flat(w, st, x) for x in w.itp.iter_items(st, v))
    if isinstance(v, SArr):
        return ("series", w.itp.np.freeze_sarr(w.itp, st, v))
    if isinstance(v, Cls):
        return v.name
    return v


def outcome(w, st, fn):
    """what a caller sees of fn(st): result or exceptions with their conditions, and warnings"""
    w.itp.effects.clear()
    w.itp.sinks[:] = [[]]
    ok, v, raised, eff = w.capture(st, fn)
    return [("result", flat(w, st, v) if ok else None), ("returns", ok),
            ("raises", tuple((s.guard, e.name) for s, e, _ in raised if sat(s.guard))),
            ("warnings", tuple(x.data for x in eff if x.kind == "warn")),
            ("calls of the right-hand side", tuple(tuple(a.shape if isinstance(a, Arr) else a for a in x.data[1]) for x in eff if x.kind == "rhs"))]


def state(w, st, sol):
    return [(a, flat(w, st, w.attr(st, sol, a))) for a in ("t", "y", "f")]


def driven(T, what, fn, out):
    st = T.base.fork()
    res = outcome(T.w, st, lambda s: fn(s))
    res.append(("state afterwards", tuple(state(T.w, st, T.sol)) if dict(res)["returns"] else None))
    out.append((what, res))


def reset(w):
    w.itp.loopcount = itertools.count(1000)
    w.itp.loopinfo.clear()


def construction(w, name, out):
    cls, itp = w.solver_classes()[name], w.itp
    forms = {"array": lambda st: A.vec(itp, st, Vv("y0")), "list": lambda st: ListV(itp.new(st, (S("a"), S("b")))),
             "tuple": lambda st: (S("a"), S("b")), "number": lambda st: S("a"), "integers": lambda st: ListV(itp.new(st, (1, 2)))}
    params = {"none": None, "array": lambda st: A.alloc(itp, st, [S("p0"), S("p1")], (2,)), "tuple": lambda st: (S("p0"), 2),
              "number": lambda st: S("p0"), "integers": lambda st: ListV(itp.new(st, (1, 2)))}
    for yf, pf, hf in [("array", "none", "number")] + [(y, "none", "number") for y in forms] + [
            ("array", p, "number") for p in params] + [("array", "none", h) for h in ("array", "absent", "integer")]:
        reset(w)
        st = w.fork()
        st.guard = Grid().facts
        kw = {}
        if params[pf]:
            kw["params"] = params[pf](st)
        h = {"number": lambda: H, "array": lambda: A.alloc(itp, st, [H], ()), "absent": lambda: None, "integer": lambda: 2}[hf]()
        if h is not None:
            kw["first_step" if name in PAIRS else "h"] = h
        if issub_multistep(name):
            kw["first_stepper_cls"] = "ForwardEuler" if yf == "array" and not name.endswith(("5", "6")) else None
        box = []

        def build(s):
            f = opaque_system(w, 1 if yf == "number" else 2) if yf != "array" else opaque_fn("f")
            box.append(w.call(s, cls, f, S("t0") if yf != "integers" else 0, forms[yf](s), **kw))
            return tuple(w.attr(s, box[0], a) for a in ("t", "y", "f", "h", "t_bound"))
        what = f"construction with y0 {yf}, params {pf}, step {hf}"
        out.append((what, outcome(w, st, build)))
        if box and (name not in PAIRS):
            out.append((what + ", then a step", outcome(w, st, lambda s: (w.method(s, box[0], "skip"),
                                                                          *[w.attr(s, box[0], a) for a in ("t", "y", "f")])[1:])))


def issub_multistep(name):
    from ..published_names import multistep
    return multistep(name)


def driving(w, name, deep, out):
    for tb in (None, (1, None), (2, 0)):
        reset(w)
        g = Grid()
        T = EventTrack(w, name, rhs="auto", tb=None if tb is None else g.place(tb))
        place = lambda *p: T.g.place(p)
        m = lambda what, n, /, *a, **k: driven(T, f"{what} (t_bound {tb})", lambda s: w.method(s, T.sol, n, *[x(s) if callable(x) else x for x in a], **k), out)
        m("step()", "step")
        m("skip()", "skip")
        for n in (0, 1, 2, 3):
            m(f"step(n={n})", "step", n=n)
            m(f"skip(n={n})", "skip", n=n)
        for u in ((-1, None), (0, None), (0, 1), (2, None), (2, 1)):
            m(f"step(upto_t={u})", "step", upto_t=T.g.place(u))
            m(f"skip(upto_t={u})", "skip", upto_t=T.g.place(u))
            for n in (1, 3):
                m(f"step(n={n}, upto_t={u})", "step", n=n, upto_t=T.g.place(u))
                m(f"skip(n={n}, upto_t={u})", "skip", n=n, upto_t=T.g.place(u))
        arr = lambda P: lambda s: A.alloc(w.itp, s, [T.g.place(p) for p in P], (len(P),))
        for P in ([], [(0, None)], [(0, 1)], [(0, 0), (1, 1)], [(1, 1), (0, 0)], [(-1, 1), (0, 1), (0, 1)], [(2, None), (1, 0), (1, None)],
                  [(-20, None)], [(-20, 0), (1, 0)]):
            m(f"run({P})", "run", arr(P))
            m(f"run({P} as list)", "run", lambda s: ListV(w.itp.new(s, tuple(T.g.place(p) for p in P))))
        m("run(number)", "run", place(1, 0))
        for p in ((-1, 1), (0, None), (0, 0), (-20, None)):
            m(f"interpolate({p})", "interpolate", T.g.place(p))
            m(f"interpolate({p}) after a step", "interpolate", T.g.place(p))


def events(w, name, deep, out):
    reset(w)
    T = EventTrack(w, name, rhs="auto", m=3)
    P = [(0, 0), (0, 2), (1, 1)]

    def add(what, evs, **how):
        try:
            o = T.events(evs, P, **how)
        except Unsupported:
            if not T.problems:
                raise
            out.append((what, [("search", T.problems[0][:2])]))
            return
        out.append((what, [("result", flat(w, o.st, o.value) if o.ok else None), ("raises", o.exc),
                           ("state afterwards", o.state() if o.ok else None),
                           ("warnings", tuple(x.data for x in o.effects if x.kind == "warn"))]))
    for d in (None, 0, 1, -1, Fraction(1, 2), Fraction(-1, 3), 3, True):
        for s in ("-++", "+--", "0+-", "-0-", "+-+", "---"):
            for term in (None, False, True, 1, 0):
                if term not in (None, True) and (d not in (None, 1) or s not in ("-++", "+-+")):
                    continue
                evs = [Ev("a", s, {1: 1, 2: 0}, d, term)]
                if term is None and d is None:
                    evs.append(Ev("b", "+-+", {1: 0, 2: 1}))
                add(f"run_events: {describe(evs, P)}", evs)
    for form in ("single", "tuple"):
        add(f"run_events with a {form} event", [Ev("a", "-++", {1: 1})], form=form)


def trial_loop(w, name, out):
    """a step of a variable-step solver on any right-hand side, and its dense output"""
    reset(w)
    e = Embedded(w, w.solver_classes()[name], name)
    s, lp = e.step, e.loop()
    out.append(("a step with every option", [
        ("trial loop", lp is not None), ("new time", s.t_new), ("new state", s.y_new),
        ("accepted", tuple((x.guard, w.val(s.st, w.attr(s.st, s.sol, "h"))) for x in lp[0].exits) if lp else None),
        ("retried", (lp[0].back.guard, w.itp.read_loc(lp[0].back, lp[1])) if lp and lp[0].back is not None else None),
        ("raises", tuple((x.guard, e2.name) for x, e2, _ in s.raised))]))
    st = s.st.fork()
    T = s.tn + e.mu.scale(Fraction(1, 3))
    out.append(("interpolation in it", outcome(w, st, lambda x: w.method(x, s.sol, "interpolate", T))))


def registry(w, out):
    st = w.fork()
    for what, fn in (("get_groups()", lambda s: w.call(s, w.attr(s, w.nb, "get_groups"))),
                     ("get_solvers()", lambda s: w.call(s, w.attr(s, w.nb, "get_solvers"))),
                     ("get_solvers(implicit=True)", lambda s: w.call(s, w.attr(s, w.nb, "get_solvers"), implicit=True)),
                     ("get_solvers(fixed_step=False)", lambda s: w.call(s, w.attr(s, w.nb, "get_solvers"), fixed_step=False))):
        out.append((what, outcome(w, st.fork(), fn)))
    names = sorted(w.solver_classes())
    for n in names:
        c = w.solver_classes()[n]
        out.append((n, [(a, flat(w, st, w.itp.getattr(st, c, a))) for a in ("IMPLICIT", "FIXED_STEP", "LEN_HISTORY", "GROUP", "ALIASES")]))


def observations(w, name, deep):
    out = []
    if name is None:
        registry(w, out)
        return out
    construction(w, name, out)
    driving(w, name, deep, out)
    if deep or name in WITH_EVENTS:
        events(w, name, deep, out)
    if name in PAIRS:
        trial_loop(w, name, out)
    return out


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if number(a) and number(b):
        return same(NF.of(a), NF.of(b))
    return a == b


PARTS = 8
WITH_EVENTS = ("ForwardEuler", "DOP853", "RungeKutta45", "RungeKutta4", "BDF2")


def part_of(names, part):
    """the solvers analysed most deeply go to different parts"""
    names = sorted(names, key=lambda n: (n not in WITH_EVENTS, n))
    return [n for i, n in enumerate(names) if (i if i < PARTS else PARTS - 1 - i % PARTS) % PARTS == part]


def run(rep, root, deep, shard):
    worlds = [World(root, nn) for nn in (False, True)]
    done = 0
    names = part_of(worlds[0].solver_classes(), shard)
    for name in [None] * (shard == 0) + names:
        key = name or "registry"
        got = []
        for w in worlds:
            with rep.unit(f"{'nonumba:' if w.itp.no_numba else ''}{key}", w, "returns"):
                got.append(observations(w, name, deep))
        done += name is not None and len(got) == 2
        if len(got) != 2:
            continue
        for (what, a), (what2, b) in itertools.zip_longest(*got, fillvalue=("nothing", [])):
            rep.ob(f"{key}/same-scenarios", what == what2, f"{what} with numba, {what2} without")
            if what != what2:
                break
            for (k, x), (_, y) in zip(a, b):
                ok = equal(x, y)
                rep.ob(f"{key}/same-outcome", ok, "" if ok else f"{what}: {k} with numba: {repr(x)[:200]}; without: {repr(y)[:200]}")
                rep.count("outcomes_compared")
    rep.need(f"solvers in part {shard}", done, len(names))
    rep.need("registered solvers", len(worlds[0].solver_classes()), 26)
    rep.need("solvers without numba", len(worlds[1].solver_classes()), len(worlds[0].solver_classes()))
    return worlds[1]


def main(tier, root):
    rep = Report("C19", tier,
                 "Abstract interpretation of the package twice, with and without NBKODE_NONUMBA (conversions of jitclass attributes "
                 "included): results, exceptions, warnings, calls of the right-hand side and states of the same calls are compared as "
                 "normal forms.",
                 ["compiled code computes what its source says, in real arithmetic; jitclass attributes are converted to their declared type",
                  "root finders by contract (C03, C15)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel([(run, (root, deep, i)) for i in range(PARTS)]))
