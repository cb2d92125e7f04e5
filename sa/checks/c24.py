"""C24: whatever raises during a call, the solver stands at the end of its last completed step."""
from __future__ import annotations

from ..events import *
from ..nf import cmp_, sat
from ..report import Report
from ..values import ExcV
from .c07 import records

TH = S("theta", "pos")


class Faulty:
    """f(t, y), uninterpreted; once armed, every call may raise (or does)"""

    def __init__(self, const=None):
        self.armed, self.always, self.const, self.calls = False, False, const, 0

    def arm(self, always=False):
        self.armed, self.always, self.calls = True, always, 0

    def value(self):
        def call(itp, st, o, args, kw):
            self.fault(itp, st)
            itp.eff(st, "rhs", "f", tuple(M.term(itp, st, a) for a in args), tuple(args))
            if self.const is not None:
                return A.vec(itp, st, self.const, "rhs")
            vs = [M.val(itp, st, a) for a in args]
            return A.vec(itp, st, lift(lambda *xs: NF.of(app("f", *[M.term(itp, st, x) for x in xs], kind="v")), *vs), "rhs")
        return Opaque(("f", "faulty"), None, call, note="fn")

    def event(self, name):
        def call(itp, st, o, args, kw):
            self.fault(itp, st)
            vs = [M.val(itp, st, a) for a in args]
            return lift(lambda *xs: NF.of(app(name, *[M.term(itp, st, x) for x in xs], kind="s")), *vs)
        return Opaque((name, "faulty"), None, call, note="fn")

    def fault(self, itp, st):
        if not self.armed:
            return
        self.calls += 1
        if self.always:
            itp.raise_(st, ExcV("Boom", ("user",)))
        itp.sinks[-1].append((st.fork(), ExcV("Boom", ("user",)), itp.where))


class Bench:
    """a solver with a completed step behind it"""

    def __init__(self, w, name, const=None):
        self.w, self.name = w, name
        self.cls = w.solver_classes()[name]
        self.g = Grid(2)
        self.f = Faulty(const)
        st = w.fork()
        self.facts = and_(self.g.facts, gt(1, TH))
        st.guard = self.facts
        w.itp.loopinfo.clear()
        kw = {"max_step": H} if name in PAIRS else {}
        pre = name in PAIRS
        self.sol = make(w, st, self.cls, f=self.f.value(), t0=self.g.t(-1 if pre else -9), h=H, **kw)
        if pre:
            w.method(st, self.sol, "skip")
        else:
            cache = w.attr(st, self.sol, "cache")
            n = w.const(st, self.cls, "LEN_HISTORY")
            for i in range(n):
                ti, yi = self.g.t(i - n + 1), Vv(f"y[{i - n + 1}]")
                fi = NF.of(app("f", ti, yi, kind="v")) if const is None else const
                w.method(st, cache, "push", ti, A.vec(w.itp, st, yi), A.vec(w.itp, st, fi))
        self.len = w.const(st, self.cls, "LEN_HISTORY")
        self.base = st

    def look(self, st):
        """history, current values and interpolation everywhere in the history"""
        w, sol = self.w, self.sol
        self.f.armed = False
        rs = records(w, st, sol, self.len)
        out = [rs]
        out.append(tuple(w.val(st, w.attr(st, sol, a)) for a in ("t", "y", "f")))
        for k in range(self.len - 1):
            a, b = rs[k][0], rs[k + 1][0]
            if a == b:
                continue
            s = st.fork()
            s.guard = and_(s.guard, self.facts)
            t = lift(lambda x, y: NF.of(x) + (NF.of(y) - NF.of(x)) * TH, a, b)
            out.append(w.val(s, w.method(s, sol, "interpolate", t)))
        return out

    def after(self, st):
        """what the solver does next"""
        self.f.armed = False
        self.w.method(st, self.sol, "skip")
        return tuple(self.w.val(st, self.w.attr(st, self.sol, a)) for a in ("t", "y", "f"))


def attempt(rep, B, key, what, call, base, stages, must=True, follow=True):
    """every raising path of call leaves the solver as one of the stages [(look, after)]"""
    w = B.w
    st = base.fork()
    w.itp.effects.clear()
    w.itp.sinks[:] = [[]]
    B.f.arm()
    ok, v, raised, _ = w.capture(st, call)
    B.f.armed = False
    seen = 0
    for rs, exc, where in raised:
        if not sat(rs.guard):
            continue
        seen += exc.name == "Boom"
        rs = rs.fork()
        got = B.look(rs.fork())
        n = next((i for i, (look, _) in enumerate(stages) if all(same(a, b) for a, b in zip(got, look)) and
                  len(got) == len(look)), None)
        parts = ""
        if n is None:
            look = stages[-1][0]
            parts = ", ".join(p for p, a, b in zip(("history", "current values", *["interpolation"] * 9), got, look) if not same(a, b))
        rep.ob(f"{key}/as-after-the-last-step", n is not None,
               f"{what}: {exc.name} raised at {where[0]}:{where[1]} leaves the solver different from the end of its last "
               f"completed step ({parts})", str(where))
        if n is not None and follow and stages[n][1] is not None:
            rep.ob(f"{key}/usable-afterwards", same(B.after(rs.fork()), stages[n][1]),
                   f"{what}: the step after the failure ({exc.name} at {where[0]}:{where[1]}) is not the step that would "
                   "have followed", str(where))
        rep.count("raising_paths")
    if must:
        rep.ob(f"{key}/rhs-called", B.f.calls > 0, f"{what} never calls the right-hand side")
        rep.need(f"{key}: raising paths of {what}", seen, 1)
    # every call raises: nothing may catch it
    st = base.fork()
    w.itp.sinks[:] = [[]]
    if B.f.calls:
        B.f.arm(True)
        ok, v, raised, _ = w.capture(st, call)
        B.f.armed = False
        live = [e.name for s, e, _ in raised if sat(s.guard)]
        rep.ob(f"{key}/propagates", not ok and set(live) == {"Boom"},
               f"{what}: an exception of the user's function " + ("is swallowed" if ok else f"becomes {live}"))


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        with rep.unit(key, w, "returns"):
            B = Bench(w, name)
            pair = name in PAIRS
            m = lambda st, *a, **k: w.method(st, B.sol, *a, **k)
            here = (B.look(B.base.fork()), None if pair else B.after(B.base.fork()))
            attempt(rep, B, key, "skip()", lambda st: m(st, "skip"), B.base, [here], follow=not pair)
            attempt(rep, B, key, "step()", lambda st: m(st, "step"), B.base, [here], follow=not pair)
            t = lambda st: w.val(st, w.attr(st, B.sol, "t"))
            old = lambda st: lift(lambda x, y: NF.of(y) + (NF.of(x) - NF.of(y)) * TH, t(st),
                                  records(w, st, B.sol, B.len)[-2][0])
            attempt(rep, B, key, "interpolate", lambda st: m(st, "interpolate", old(st)), B.base, [here], must=False,
                    follow=not pair)
            # after a query, so that a stale interpolant is not mistaken for a new one
            st = B.base.fork()
            m(st, "interpolate", old(st))
            here = (B.look(st.fork()), None if pair else B.after(st.fork()))
            attempt(rep, B, key, "skip() after interpolate", lambda s: m(s, "skip"), st, [here], follow=not pair)
            if not pair:
                stages, st = [], B.base.fork()
                for k in range(3):
                    stages.append((B.look(st.fork()), B.after(st.fork())))
                    m(st, "skip")
                for what, call in (("step(n=3)", lambda s: m(s, "step", n=3)), ("skip(n=3)", lambda s: m(s, "skip", n=3)),
                                   ("step(upto_t)", lambda s: m(s, "step", upto_t=B.g.place((2, 0)))),
                                   ("skip(n, upto_t)", lambda s: m(s, "skip", n=3, upto_t=B.g.place((2, 1)))),
                                   ("run", lambda s: m(s, "run", A.alloc(w.itp, s, [B.g.place((0, 0)), B.g.place((1, 1))], (2,))))):
                    attempt(rep, B, key, what, call, B.base, stages)
                ev = lambda s: (B.f.event("ga"), opaque_fn("gb", kind="s"))
                stages.append((B.look(st.fork()), B.after(st.fork())))
                if name == "ForwardEuler" or deep:
                    attempt(rep, B, key, "run_events", lambda s: m(s, "run_events", A.alloc(
                        w.itp, s, [B.g.place((0, 0)), B.g.place((1, 1))], (2,)), ev(s)), B.base, stages)
            done += 1
        if name in PAIRS:
            with rep.unit(f"{key}/driven", w, "returns"):
                C = Bench(w, name, NF({}) if name == "DOP853" else Vv("c"))
                m = lambda st, *a, **k: w.method(st, C.sol, *a, **k)
                stages, st = [], C.base.fork()
                for k in range(3):
                    stages.append((C.look(st.fork()), C.after(st.fork())))
                    m(st, "skip")
                for what, call in (("step(n=3)", lambda s: m(s, "step", n=3)),
                                   ("run", lambda s: m(s, "run", A.alloc(w.itp, s, [C.g.place((0, 0)), C.g.place((1, 1))], (2,))))):
                    attempt(rep, C, f"{key}/driven", what, call, C.base, stages)
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C24", tier,
                 "Abstract interpretation of step, skip, run, run_events and interpolate of every solver with a right-hand side "
                 "(or event function) that may raise at every call, in any trial of any step; in the abstract state of each raising "
                 "path, history, current values, interpolation at a generic point of every history interval and the "
                 "following step are compared with the solver after its completed steps.",
                 ["real arithmetic", "root finders by contract: the implicit equation may raise wherever it is evaluated",
                  "variable-step solvers: multi-step calls with rhs constant in t and y"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
