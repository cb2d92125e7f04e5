"""C13: arrays given by the caller are neither modified nor kept: the solver works on copies."""
from __future__ import annotations

from ..events import *
from ..report import Report
from ..values import Opaque
from .c12 import arrays_of

JUNK = S("junk")


def rhs3(name="f"):
    """f(t, y, p): uninterpreted; p is a pair of cells"""
    def call(itp, st, o, args, kw):
        itp.eff(st, "rhs", name, tuple(M.term(itp, st, a) for a in args), tuple(args))
        t, y = M.val(itp, st, args[0]), M.val(itp, st, args[1])
        ps = [M.val(itp, st, p) for p in params_of(itp, st, args[2])] if len(args) > 2 else []
        v = lift(lambda *xs: NF.of(app(name, *[M.term(itp, st, x) for x in xs], kind="v")), t, y, *ps)
        return A.vec(itp, st, v, "rhs")
    return Opaque((name, "p"), None, call, note="fn")


def params_of(itp, st, p):
    return itp.iter_items(st, p)


class Plain:
    """a new solver whose y0 and params are arrays the caller keeps"""

    def __init__(self, w, cls, form="array"):
        self.w, self.cls = w, cls
        itp = w.itp
        st = self.st = w.fork()
        self.g = Grid()
        st.guard = self.g.facts
        self.y0 = A.vec(itp, st, Vv("y0"))
        ps = [S("p0"), S("p1")]
        self.params = A.alloc(itp, st, ps, (2,)) if form == "array" else tuple(ps)
        kw = {"max_step": H} if cls.name in PAIRS else {}
        self.sol = make(w, st, cls, f=rhs3(), y0=self.y0, t0=S("tn"), params=self.params, **kw)

    def future(self, st):
        w = self.w
        w.method(st, self.sol, "skip")
        w.method(st, self.sol, "skip")
        return self.now(st)

    def now(self, st):
        return tuple(self.w.val(st, self.w.attr(st, self.sol, a)) for a in ("t", "y", "f"))


def run(rep, root, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    itp = w.itp
    done = 0
    for name in select(w, shard):
        key = tag + name
        cls = w.solver_classes()[name]
        with rep.unit(key, w, "returns"):
            for step in (False, True):
                # construction and one step leave y0 and params alone ...
                P = Plain(w, cls)
                st = P.st
                if step:
                    if name in PAIRS:
                        continue        # its trial loop on a general rhs: steps below, with constant rhs
                    w.method(st, P.sol, "skip")
                rep.ob(f"{key}/y0-not-modified", w.val(st, P.y0) == Vv("y0"), "the caller's y0 is modified")
                rep.ob(f"{key}/params-not-modified", itp.iter_items(st, P.params) == [S("p0"), S("p1")],
                       "the caller's params are modified")
                # ... and changing them afterwards changes nothing
                base = P.now(st)
                for what, arr in (("y0", P.y0), ("params", P.params)):
                    mod = st.fork()
                    itp.setitem(mod, arr, Ellipsis, JUNK)
                    rep.ob(f"{key}/{what}-not-kept", P.now(mod) == base, f"changing {what} afterwards changes the state")
                    if name not in PAIRS:
                        ref = st.fork()
                        want = P.future(ref)
                        rep.ob(f"{key}/{what}-not-kept", P.future(mod) == want,
                               f"changing {what} afterwards changes the steps that follow")
                    else:
                        a, b = (first_rhs(w, s, P) for s in (st.fork(), mod))
                        rep.ob(f"{key}/{what}-not-kept", a == b, f"changing {what} afterwards changes the right-hand side")
                    rep.count("inputs_checked")
            # the array of requested times
            T = Track(w, name, "auto")
            for what, ps in (("sorted", [(0, 0), (1, None)]), ("unsorted", [(1, None), (0, 0)]), ("past", [(-1, 1), (0, None)]),
                             ("mixed", [(-1, 1), (1, 0)]), ("single", [(1, 0)]), ("three", [(1, 0), (-1, 1), (0, 1)])):
                box = {}

                def call(st):
                    box["req"] = A.alloc(itp, st, [T.g.place(p) for p in ps], (len(ps),))
                    return w.method(st, T.sol, "run", box["req"])
                requests(rep, w, key, T, f"run({what})", ps, T.drive(call), box)
            T = EventTrack(w, name, rhs="auto", m=3)
            for evs, ps in (([Ev("a", "-+", {1: 1}, terminal=True)], [(0, 0), (0, 2)]),
                            ([Ev("a", "-+", {1: 1}, terminal=True)], [(0, 2)]),
                            ([Ev("a", "--+", {2: 0}, terminal=True), Ev("b", "-+-", {1: 1, 2: 2})], [(1, 1), (0, 2)]),
                            ([Ev("a", "-+-", {1: 1, 2: 0})], [(-1, 0), (0, 2), (1, 2)])):
                out = T.events(evs, ps)
                requests(rep, w, key, T, f"run_events({', '.join(e.show() for e in evs)})", ps, out, {"req": T.request})
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def requests(rep, w, key, T, what, ps, out, box):
    itp, g = w.itp, T.g
    if out.exc is not None:
        rep.ob(f"{key}/returns", False, f"{what}: {out.exc}")
        return
    req, st = box["req"], out.st
    rep.ob(f"{key}/request-not-modified", itp.iter_items(st, req) == [g.place(p) for p in ps],
           f"{what} changes the caller's array of times")
    arrs = arrays_of(w, st, out.value)
    before = [w.val(st, a) for a in arrs]
    mod = st.fork()
    itp.setitem(mod, req, Ellipsis, JUNK)
    rep.ob(f"{key}/request-not-kept", [w.val(mod, a) for a in arrs] == before and out_state(w, mod, T) == out.state(),
           f"changing the array of times afterwards changes the result of {what}")
    for a in arrs:
        mod = st.fork()
        itp.setitem(mod, a, Ellipsis, JUNK)
        rep.ob(f"{key}/result-is-separate", itp.iter_items(mod, req) == [g.place(p) for p in ps],
               f"writing into the result of {what} changes the caller's array of times")
    rep.count("inputs_checked")


def out_state(w, st, T):
    return tuple(w.val(st, w.attr(st, T.sol, a)) for a in ("t", "y", "f"))


def first_rhs(w, st, P):
    """value of the solver's own right-hand side at a generic point"""
    return w.val(st, w.call(st, w.attr(st, P.sol, "rhs"), S("tq"), A.vec(w.itp, st, Vv("yq"))))


def main(tier, root):
    rep = Report("C13", tier,
                 "Abstract interpretation with an explicit heap of numpy arrays and views: y0, params and requested times are "
                 "arrays of the caller; their contents are compared before and after construction, steps and runs, and the "
                 "solver's values before and after the caller overwrites them.",
                 ["real arithmetic", "the model of numpy's view/copy rules", "the user's rhs does not write into its arguments"])
    return rep.finish(rep.parallel(shards(run, root)))
