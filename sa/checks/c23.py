"""C23: solvers do not influence each other, nor calls of run_events each other."""
from __future__ import annotations

import itertools

from ..events import *
from ..nf import sat
from ..published_names import multistep
from ..report import Report
from .c19 import flat
from .c07 import records

PLACE = Fraction(1, 3)


def system(name):
    return opaque_fn(name)


class Pair:
    """two solvers sharing what callers can share: the array of the initial state, the step and the parameters"""

    def __init__(self, w, a, b, same_rhs):
        self.w = w
        itp = w.itp
        self.names = (a, b)
        self.n = [0, 0]
        st = self.st = w.fork()
        st.guard = and_(gt(S("hi", "pos"), H), gt(S("hi", "pos"), S("hz", "pos")))
        y0 = A.vec(itp, st, Vv("y0"))
        h = A.alloc(itp, st, [H], ())
        ps = A.alloc(itp, st, [S("p0"), S("p1")], (2,))
        self.sols = []
        for i, n in enumerate((a, b) if b else (a,)):
            self.count(i)
            if same_rhs or not i:
                self.sols.append(self.build(st, n, "f", y0, h, ps))
            else:
                self.sols.append(self.other(st, n))

    def count(self, i):
        """loops of each solver are numbered alike whatever the other does"""
        self.w.itp.loopcount = itertools.count(1000 * (i + 1) + 100 * self.n[i])
        self.n[i] += 1

    def other(self, st, n):
        """a solver of another problem, with other options"""
        itp = self.w.itp
        more = {k: S(k, "pos") for k in ("atol", "min_factor")} if n in PAIRS else {}
        return self.build(st, n, "g", A.vec(itp, st, Vv("z0")), A.alloc(itp, st, [S("hz", "pos")], ()),
                          A.alloc(itp, st, [S("q0"), S("q1")], (2,)), **more)

    def build(self, st, n, f, y0, h, ps, **more):
        w = self.w
        cls = w.solver_classes()[n]
        kw = {"params": ps, **more}
        if n in PAIRS:
            kw.update(first_step=h, max_step=S("hi", "pos"))
        else:
            kw["h"] = h
        if multistep(n):
            kw["first_stepper_cls"] = "ForwardEuler" if not n.endswith(("4", "5", "6")) else None
        return w.call(st, cls, system(f), S("t0"), y0, **kw)

    def do(self, st, i, what):
        """one call of solver i -> what it returns and the state it leaves"""
        w, sol = self.w, self.sols[i]
        w.itp.sinks[:] = [[]]
        self.count(i)
        attr = lambda a: w.attr(st, sol, a)
        if what == "skip":
            call = lambda s: w.method(s, sol, "skip")
        elif what == "step":
            call = lambda s: w.method(s, sol, "step", n=2)
        elif what == "interpolate":
            t = w.val(st, w.attr(st, sol, "t"))
            t_old = w.val(st, w.itp.getitem(st, w.attr(st, sol, "cache", "ts"), -2))
            call = lambda s: w.method(s, sol, "interpolate", t_old + (t - t_old).scale(PLACE))
        ok, v, raised, _ = w.capture(st, call)
        if not ok:
            return [(what, "raises")], False
        res = [(f"result of {what}", flat(w, st, v))]
        res += [(f"{a} after {what}", flat(w, st, w.attr(st, sol, a))) for a in ("t", "y", "f", "h")]
        res.append((f"history after {what}", flat(w, st, w.attr(st, sol, "cache", "ys"))))
        return res, True

    def play(self, script, st=None):
        """[(solver, call)] from the state after construction -> results of each solver, and the final ones"""
        st = self.st.fork()
        self.n = [1, 1]
        out = ([], [])
        for i, what in script:
            r, ok = self.do(st, i, what)
            out[i].extend(r)
            if not ok:
                break
        return out


def scripts(embedded, deep):
    own = ["skip", "interpolate", "skip"] if embedded else ["skip", "interpolate", "step", "interpolate"]
    one = [(0, x) for x in own]
    two = [(1, x) for x in own]
    mix = [x for p in zip(one, two) for x in p]
    xim = [x for p in zip(two, one) for x in p]
    return one, two, [("step by step", mix), ("one after the other", two + one)] + (
        [("step by step, the other first", xim)] if deep or not embedded else [])


def compare(rep, key, w, a, b, same_rhs, deep=False):
    P = Pair(w, a, b, same_rhs)
    one, two, mixes = scripts(a in PAIRS or b in PAIRS, deep)
    alone = P.play(one)[0], P.play(two)[1]
    for label, script in mixes:
        got = P.play(script)
        for i in (0, 1):
            for (k, x), (_, y) in zip(alone[i], got[i]):
                rep.ob(f"{key}/independent", x == y, f"{P.names[i]}, {label} with {P.names[1 - i]}: {k} is not what the solver "
                       "alone gives")
                rep.count("values_compared")
            rep.ob(f"{key}/independent", len(alone[i]) == len(got[i]), f"{P.names[i]}, {label} with {P.names[1 - i]}: fails")


def constructed_later(rep, key, w, a, b):
    """constructing a solver does not disturb one that is running"""
    P = Pair(w, a, None, False)
    st = P.st.fork()
    P.n = [1, 1]
    P.do(st, 0, "skip")
    s2 = st.fork()
    P.count(1)
    P.other(s2, b)
    for what in ("interpolate", "skip"):
        P.n[0] = 5
        x = P.do(st, 0, what)[0]
        P.n[0] = 5
        y = P.do(s2, 0, what)[0]
        for (k, u), (_, v) in zip(x, y):
            rep.ob(f"{key}/independent", u == v, f"{a}: {k} changes when a {b} is constructed meanwhile")
            rep.count("values_compared")


def repeated_events(rep, key, w, name):
    """the events of one call of run_events do not reach into the next call"""
    T = EventTrack(w, name, rhs="auto", m=3)
    itp = w.itp
    for term in (None, True):
        for s, at in (("-+-+", {1: 1, 2: 0, 3: 2}), ("+--+", {1: 0, 3: 1}), ("-0+-", {3: 1}), ("---+", {3: 0})):
            for first in ([(0, 1)], [(0, 0), (1, 1)]):
                evs = [Ev("a", s, at), Ev("b", "+-++", {1: 0, 2: 2})]
                later = [Ev("a", s, at, terminal=term), evs[1]]
                shared = [e.fn() for e in evs] if term is None else None

                def play(st, how):
                    st.guard = and_(st.guard, facts)
                    req = lambda P: A.alloc(itp, st, [T.g.place(p) for p in P], (len(P),))
                    fs = lambda es: ListV(itp.new(st, tuple(shared or [e.fn() for e in es])))
                    if how == "run_events":
                        w.method(st, T.sol, "run_events", req(first), fs(evs))
                    else:
                        w.method(st, T.sol, "run", req(first))
                    return flat(w, st, w.method(st, T.sol, "run_events", req([(2, 1)]), fs(later)))
                T.evs = evs
                facts = T.facts(evs)
                got, want = T.drive(lambda st: play(st, "run_events")), T.drive(lambda st: play(st, "run"))
                what = f"run_events with {describe(later, [(2, 1)])} after run_events with requests {','.join(map(place_show, first))}"
                rep.ob(f"{key}/repeated-events", got.exc == want.exc and got.value == want.value,
                       f"{what}: differs from what it returns after run" + (f": {got.exc}" if got.exc else ""))
                rep.count("repeated_calls")


def partners(name, names, deep):
    if deep:
        return [n for n in ("ForwardEuler", "BDF2", "AdamsBashforth3", "RungeKutta4", "RungeKutta23", "RungeKutta45", "DOP853") if n in names]
    fam = {"RungeKutta23": "RungeKutta45", "RungeKutta45": "RungeKutta23", "DOP853": "RungeKutta45"}
    return [fam.get(name, "BDF2" if multistep(name) and not name.startswith("BDF") else "RungeKutta4" if name != "RungeKutta4" else "ForwardEuler")]


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    names = w.solver_classes()
    mine = [n for n in names if (["RungeKutta23", "RungeKutta45", "DOP853"].index(n) + 1 if n in PAIRS else 0) == shard]
    for name in mine:
        key = tag + name
        with rep.unit(key, w, "returns"):
            for same_rhs in (False, True) if deep or name not in PAIRS else (False,):
                compare(rep, key, w, name, name, same_rhs, deep)
            for b in partners(name, names, deep):
                compare(rep, key, w, name, b, False, deep)
            constructed_later(rep, key, w, name, name)
            if deep or name in ("ForwardEuler", "BDF2", "RungeKutta4", "RungeKutta45"):
                repeated_events(rep, key, w, name)
            done += 1
    rep.need(f"{tag}solvers of part {shard}", done, 23 if not shard else 1)
    return w


def main(tier, root):
    rep = Report("C23", tier,
                 "Abstract interpretation of calls of two solvers, of the same and of different classes, that share the arrays given to "
                 "them: results, states, histories and dense output of each in every interleaving are compared, as normal forms, with "
                 "the solver alone.",
                 ["real arithmetic", "the right-hand sides do not change state themselves"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
