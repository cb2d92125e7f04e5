"""C15: an event is located on the interpolated solution inside the step that shows it, to the accuracy of
the bracketing search, and comes with the state at that time."""
from __future__ import annotations

from ..bisection import NotBisection, bisection
from ..events import *
from ..report import Report


def scenarios(full):
    for i in range(3):
        for s in ("-+", "+-"):
            yield [Ev("a", s, {1: i})], [(0, 1)]
    yield [Ev("a", "--+", {2: 1}, flat=[1]), Ev("b", "++-", {2: 0})], [(1, 1)]
    yield [Ev("a", "---+", {3: 1}, flat=[2]), Ev("b", "++++", flat=[1, 2, 3]), Ev("c", "+++-", {3: 0}, flat=[1, 2])], [(2, 1)]
    yield [Ev("a", "-0", {})], [(0, 1)]
    yield [Ev("a", "0+", {})], [(0, 1)]
    yield [Ev("a", "-+-+", {1: 0, 2: 1, 3: 2}), Ev("b", "++-0", {2: 2})], [(2, 1)]
    if full:
        for d in (1, -1):
            yield [Ev("a", "-+-+", {1: 2, 2: 1, 3: 0}, d), Ev("b", "+-+0", {1: 1, 2: 0}, d)], [(1, 1), (2, 1)]
            yield [Ev("a", "+0-+", {3: 0}, d), Ev("b", "-+0+", {1: 1}, d), Ev("c", "+-+-", {1: 2, 2: 0, 3: 1}, d)], [(2, 2)]
    yield [Ev("a", "-+", {1: 0}, terminal=True), Ev("b", "+-", {1: 1}, terminal=True)], [(0, 1), (0, 2)]
    yield [Ev("a", "--+", {2: 2}, terminal=True), Ev("b", "+--", {1: 1}, terminal=False)], [(0, 1), (2, 2)]


def run(rep, root, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    searches = {}
    for name in select(w, shard):
        key = tag + name
        with rep.unit(key, w, "returns"):
            T = EventTrack(w, name, rhs="auto", m=3)
            for evs, P in scenarios(name == "ForwardEuler"):
                what = describe(evs, P)
                got = drive(rep, key, T, evs, P)
                if not got:
                    continue
                out, (ts, ys, te, ye) = got
                _, occ, _, _ = spec(evs, P)
                for e, k, f, kw, where in T.located:
                    searches.setdefault((f.qual, repr(sorted(kw.items(), key=str))), (f, kw, where))
                for e, tl, yl, places in zip(evs, te, ye, occ):
                    settled(T, tl)
                    rep.ob(f"{key}/one-state-per-time", len(tl) == len(yl),
                           f"{what}: {len(tl)} times and {len(yl)} states for {e.show()}")
                    exact = {T.g.place(p): p for p in places}
                    for t, y in zip(tl, yl):
                        p = exact.get(NF.of(t))
                        if p is None:
                            continue        # C14 compares the times
                        rep.ob(f"{key}/state-at-event", same(y, T.interp(p)),
                               f"{what}: the state recorded with {e.show()} at {place_show(p)} is not the solution there")
                        rep.count("event_states")
            done += 1
    need_all(rep, w, tag, done, shard)
    for (qual, _), (f, kw, where) in sorted(searches.items(), key=lambda x: x[0]):
        kw = {k: v for k, v in kw.items() if k != "args"}
        key = f"{tag}{qual}"
        with rep.unit(key, w, "returns"):
            for orient in (-1, 1):
                try:
                    verdicts = bisection(w, f, kw, orient)
                except NotBisection as e:
                    rep.error(f"{key}: the root search is not a bracketing loop the rule covers: {e}")
                    break
                for ok, rule, msg in verdicts:
                    rep.ob(f"{key}/{rule}", ok, f"search called at {where[0] if isinstance(where, tuple) else where} "
                           f"with {kw}: {msg}", str(where))
                rep.count("searches_analysed")
    if shard is None or shard == 0:
        rep.need(f"{tag}root searches", len(searches), 1)
    return w


def main(tier, root):
    rep = Report("C15", tier,
                 "Abstract interpretation of run_events(): every root search is intercepted and its function, at a generic "
                 "time, and interval are compared with event(t, interpolated solution) on the step just taken; recorded "
                 "states are compared with the interpolation at the recorded time; the search routine itself is analysed by "
                 "a loop invariant on an uninterpreted function with a sign change: halving, sign change kept in the "
                 "bracket, the result in the bracket, and exits only at an exact zero or after 2^-30 narrowing.",
                 ["real arithmetic", "variable-step solvers on rhs that are constant in t and y",
                  "the event function changes sign within a step only where the facts of the scenario say"])
    return rep.finish(rep.parallel(shards(run, root)))
