"""C12: what the solver returns is a snapshot: later calls do not change it, and writing into it does
not change the solver."""
from __future__ import annotations

from ..events import *
from ..report import Report
from ..values import Arr, ListV, SliceV

NONE = ()


def arrays_of(w, st, v):
    """arrays inside a returned value, in order"""
    v = w.itp.prune(st, v)
    if isinstance(v, (tuple, ListV)):
        out = []
        for x in w.itp.iter_items(st, v):
            out += arrays_of(w, st, x)
        return out
    return [v] if isinstance(v, Arr) else []


def calls(T, k=0):
    """(label, steps taken, call); placed k steps later"""
    m = T.w.method
    place = lambda p: T.g.place((p[0] + k, p[1]))

    def P(st, *ps):
        T.request = A.alloc(T.w.itp, st, [place(p) for p in ps], (len(ps),))
        return T.request
    yield "step()", 1, lambda st: m(st, T.sol, "step")
    yield "step(n=1)", 1, lambda st: m(st, T.sol, "step", n=1)
    yield "step(n=3)", 3, lambda st: m(st, T.sol, "step", n=3)
    yield "step(upto_t)", 2, lambda st: m(st, T.sol, "step", upto_t=place((2, 0)))
    yield "step(n, upto_t)", 1, lambda st: m(st, T.sol, "step", n=2, upto_t=place((1, 0)))
    yield "step(n, upto_t) stopped by n", 2, lambda st: m(st, T.sol, "step", n=2, upto_t=place((3, 0)))
    yield "run(ahead)", 2, lambda st: m(st, T.sol, "run", P(st, (1, 0), (2, None)))
    yield "run(at step ends)", 1, lambda st: m(st, T.sol, "run", P(st, (1, None)))
    yield "run(past)", 0, lambda st: m(st, T.sol, "run", P(st, (-1, None), (-1, 1), (0, None)))
    yield "run(past, now and ahead)", 1, lambda st: m(st, T.sol, "run", P(st, (-1, None), (0, None), (0, 1)))
    yield "run(unsorted)", 2, lambda st: m(st, T.sol, "run", P(st, (1, None), (-1, None), (2, None)))
    for p, n in (((0, None), "now"), ((-1, None), "previous step"), ((-1, 0), "inside the last step")):
        yield f"interpolate({n})", 0, lambda st, p=p: m(st, T.sol, "interpolate", place(p))


def event_calls():
    yield "run_events", [Ev("a", "-+-", {1: 0, 2: 1}), Ev("b", "-0+")], [(0, 1), (1, None), (1, 1)]
    yield "run_events stopped by an event", [Ev("a", "--+", {2: 1}, terminal=True), Ev("b", "0+-", {2: 0})], [(0, 1), (1, 0), (1, 2)]
    yield "run_events with past times", [Ev("a", "-+", {1: 0})], [(-1, None), (0, None), (0, 1)]


def after(T, st):
    """what an undisturbed solver goes through later"""
    w = T.w
    w.method(st, T.sol, "skip")
    w.method(st, T.sol, "interpolate", w.attr(st, T.sol, "t"))
    w.method(st, T.sol, "skip")
    return tuple(w.val(st, w.attr(st, T.sol, a)) for a in ("t", "y", "f"))


def judge(rep, w, key, T, what, out, again=None):
    if out.exc is not None:
        rep.ob(f"{key}/returns", False, f"{what}: {out.exc}", str(out.raised and out.raised[-1][2]))
        return
    st = out.st
    arrs = arrays_of(w, st, out.value)
    rep.ob(f"{key}/arrays", bool(arrs), f"{what} returns no array")
    before = [w.val(st, a) for a in arrs]
    later = st.fork()
    after(T, later)
    for i, a in enumerate(arrs):
        rep.ob(f"{key}/unchanged-by-later-steps", w.val(later, a) == before[i],
               f"array {i} returned by {what} changes when the solver is stepped further")
    if again:
        later = st.fork()
        request, T.request = T.request, None
        again(later)
        T.request = request
        for i, a in enumerate(arrs):
            rep.ob(f"{key}/unchanged-by-later-calls", w.val(later, a) == before[i],
                   f"array {i} returned by {what} changes when the solver is called that way again")
    if T.request is not None:
        # the caller goes on to use the array of times for something else
        mod = st.fork()
        w.itp.setitem(mod, T.request, Ellipsis, S("junk"))
        for i, a in enumerate(arrs):
            rep.ob(f"{key}/unchanged-by-the-caller", w.val(mod, a) == before[i],
                   f"array {i} returned by {what} is the caller's array of requested times")
    # writing into the arrays: the solver and the other arrays stay as they were
    ref = st.fork()
    want = after(T, ref)
    for i, a in enumerate(arrs):
        mod = st.fork()
        if not a.idx:
            continue
        w.itp.setitem(mod, a, Ellipsis, S("junk"))
        for j, b in enumerate(arrs):
            rep.ob(f"{key}/separate-arrays", j == i or w.val(mod, b) == before[j],
                   f"arrays {i} and {j} returned by {what} share memory")
        got = tuple(w.val(mod, w.attr(mod, T.sol, x)) for x in ("t", "y", "f"))
        ok = got == tuple(w.val(st, w.attr(st, T.sol, x)) for x in ("t", "y", "f"))
        rep.ob(f"{key}/writing-changes-nothing", ok and after(T, mod) == want,
               f"writing into array {i} returned by {what} changes the solver")
        rep.count("arrays_checked")
    rep.count("calls_analysed")


def run(rep, root, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        with rep.unit(key, w, "returns"):
            T = Track(w, name, "auto")
            for i, (what, steps, call) in enumerate(calls(T)):
                T.request = None
                again = [c for _, _, c in calls(T, steps)][i]
                judge(rep, w, key, T, what, T.drive(call), again)
            V = EventTrack(w, name, rhs="auto", m=3)
            for what, evs, P in event_calls():
                judge(rep, w, key, V, what, V.events(evs, P))
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C12", tier,
                 "Abstract interpretation with an explicit heap of numpy arrays and views: the arrays returned by every "
                 "form of step, run and interpolate are compared, as normal forms, before and after further steps and "
                 "interpolations, and the solver's future before and after overwriting them.",
                 ["real arithmetic", "variable-step solvers on rhs that are constant in t and y",
                  "the model of numpy's view/copy rules"])
    return rep.finish(rep.parallel(shards(run, root)))
