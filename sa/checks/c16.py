"""C16: a terminal event ends the run at its first occurrence; other events do not influence the result."""
from __future__ import annotations

from ..events import *
from ..report import Report


def scenarios(full, deep):
    """(events, requests)"""
    Ta = lambda s, at=None, d=None: Ev("a", s, at, d, terminal=True)
    places = [(0, 0), (0, 1), (0, 2), (1, None), (1, 0)]
    reqs = [[(0, 0)], [(0, 1)], [(0, 2)], [(1, None)], [(1, 1)], [(0, 0), (0, 2)], [(0, 0), (1, None), (1, 2)],
            [(0, 1), (1, 1)], [(0, 2), (2, None)], [(2, 1)]]
    ends = [("-+-", {1: 0, 2: 0}), ("-+-", {1: 1, 2: 0}), ("+-+", {1: 2, 2: 1}), ("-0+", {}), ("--+", {2: 1}), ("0+-", {2: 0}),
            ("++0", {}), ("---", {})]
    for i, P in enumerate(reqs):
        for j, (s, at) in enumerate(ends):
            if full or (i + j) % 4 == 0:
                s2 = s + s[-1] if max(index_of(p) for p in P) > 2 else s
                yield [Ta(s2, at)], P
    # several events in one step, in both orders
    P3 = [[(0, 0), (0, 1), (0, 2), (1, 1)], [(0, 2)], [(1, 0)], [(1, 1), (1, 2)]]
    for P in P3 if full else P3[:2]:
        for x, y in ((0, 2), (2, 0), (1, 1), (0, 1), (2, 1)):
            for tx, ty in ((True, True), (True, False), (False, True), (False, False), (True, None)):
                evs = [Ev("a", "-++", {1: x}, terminal=tx), Ev("b", "+-+", {1: y, 2: 0}, terminal=ty)]
                if full or (x + y) % 2 == 0:
                    yield evs, P
    # terminal given as a number; an event function that keeps its value for a while
    for t in (1, 0, 2):
        yield [Ev("a", "-++", {1: 1}, terminal=t)], [(0, 2), (1, 0)]
        yield [Ev("a", "--+", {2: 1}, terminal=t, direction=1, flat=[1]), Ev("b", "+--", {1: 0}, terminal=not t, flat=[2])], [(0, 2), (1, 2)]
    # in different steps; a terminal event whose direction does not match; zero at a step end
    for P in P3[2:]:
        yield [Ev("a", "--+", {2: 0}, terminal=True), Ev("b", "+-+", {1: 1, 2: 2}, terminal=True)], P
        yield [Ev("a", "-+-", {1: 0, 2: 1}, direction=-1, terminal=True), Ev("b", "+--", {1: 1})], P
        yield [Ev("a", "-+-", {1: 0, 2: 1}, direction=-1, terminal=True), Ev("b", "++-", {2: 2}, terminal=False),
               Ev("c", "--0", {})], P
        yield [Ev("a", "-0+", {}, terminal=True), Ev("b", "+-+", {1: 0, 2: 0})], P
        yield [Ev("a", "0+-", {2: 1}, direction=-1, terminal=True), Ev("b", "0+-", {2: 1})], P
    if full:
        # past times, unsorted
        for end in ({1: 0}, {1: 2}):
            for t in (True, False):
                yield [Ev("a", "-++", end, terminal=t)], [(-1, 1), (0, None), (0, 1), (1, 0)]
                yield [Ev("a", "-++", end, terminal=t)], [(0, 1), (-1, 1), (1, 0), (0, 0)]
                yield [Ev("a", "-++", end, terminal=t)], [(1, 0), (0, 1)]
                yield [Ev("a", "-+-", {1: 0, 2: 1}, terminal=t)], [(-1, 2)]
                yield [Ev("a", "--+", {2: 1}, terminal=t)], [(1, 2), (0, 1), (1, 0)]


def judge(rep, key, T, evs, P, got, tb=None):
    out, (ts, ys, te, ye) = got
    what = describe(evs, P, tb)
    past = [p for p in P if order(p) <= (0, -1)]
    ahead = sorted([p for p in P if order(p) > (0, -1)], key=order)
    kept, occ, end, steps = spec(evs, ahead, tb)
    want = past + kept
    settled(T, ts)
    exact = {T.g.place(p): p for p in want}
    rep.ob(f"{key}/one-state-per-time", len(ts) == len(ys), f"{what}: {len(ts)} times, {len(ys)} states")
    if len(ts) != len(ys):
        return
    places = [exact.get(NF.of(t)) for t in ts]
    ok = sorted(map(str, places)) == sorted(map(str, want))
    rule = "stops-at-the-event" if end is not None else "not-influenced-by-events"
    rep.ob(f"{key}/{rule}", ok, f"{what}: times {ts} returned, expected {','.join(map(place_show, want))}")
    if not ok:
        return
    # requested order
    asked = [p for p in P if p in want and p != end]
    rep.ob(f"{key}/requested-order", [p for p in places if p != end] == asked, f"{what}: times {ts} returned")
    if P == sorted(P, key=order) and end is not None and end in places:
        rep.ob(f"{key}/end-comes-last", places[-1] == end, f"{what}: times {ts} returned")
    for p, y in zip(places, ys):
        rep.ob(f"{key}/state-at-time", same(y, T.interp(p)),
               f"{what}: the state paired with {place_show(p)} is not the solution there")
    rep.ob(f"{key}/steps-taken", same(out.state(), T.rec(steps)),
           f"{what}: the solver does not end after {steps} steps but at {out.final('t')!r}")
    for e, tl, o in zip(evs, te, occ):
        settled(T, tl)
        rep.ob(f"{key}/" + ("nothing-after-the-end" if end is not None else "all-occurrences"),
               len(tl) == len(o) and all(NF.of(x) == T.g.place(p) for x, p in zip(tl, o)),
               f"{what}: {e.show()} is recorded at {tl}, expected {','.join(map(place_show, o)) or 'no occurrence'}")


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        full = name == "ForwardEuler"
        with rep.unit(key, w, "returns"):
            T = EventTrack(w, name, rhs="auto", m=3)
            for evs, P in scenarios(full or deep, deep):
                got = drive(rep, key, T, evs, P)
                if got:
                    judge(rep, key, T, evs, P, got)
            done += 1
        for tb in ((1, None), (1, 1), (2, 0)) if full or deep else ((1, 1),):
            with rep.unit(f"{key}/t_bound", w, "returns"):
                B = EventTrack(w, name, rhs="auto", m=3, tb=Grid(3).place(tb))
                for t in (True, False):
                    for evs, P in [([Ev("a", "-++", {1: 1}, terminal=t)], [(0, 0), (0, 2), (1, 0)]),
                                   ([Ev("a", "--+", {2: 1}, terminal=t)], [(0, 0), (1, None), (1, 0)]),
                                   ([Ev("a", "--+", {2: 1}, terminal=t), Ev("b", "+--", {1: 0})], [(1, 0)])]:
                        P = [p for p in P if order(p) <= order(tb)]
                        got = P and drive(rep, f"{key}/t_bound", B, evs, P, tb)
                        if got:
                            judge(rep, f"{key}/t_bound", B, evs, P, got, tb)
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C16", tier,
                 "Abstract interpretation of run_events() with terminal and non-terminal events whose signs at step ends and "
                 "root places are facts, against every placement of requests and t_bound around them; times, states, "
                 "recorded occurrences and the final solver state are compared as normal forms.",
                 ["real arithmetic", "roots lie strictly inside their step, at symbolic places (C15 decides the root finder)",
                  "variable-step solvers on rhs that are constant in t and y"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
