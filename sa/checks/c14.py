"""C14: run_events records one occurrence per step whose ends show the event, in its direction."""
from __future__ import annotations

import itertools

from ..events import *
from ..report import Report

DIRECTIONS = (None, 0, 1, -1, Fraction(1, 2), -3)


def sequences(n):
    """signs at the ends of n steps; an event that is zero throughout a step has no location to compare"""
    for s in itertools.product("-0+", repeat=n + 1):
        s = "".join(s)
        if "00" not in s:
            yield s


def single(full, deep):
    """(events, requests, form)"""
    if full:
        for n in (1, 2):
            for s in sequences(n):
                for d in DIRECTIONS if n == 2 or deep else (None, 1, -1):
                    yield [Ev("a", s, {1: 0, 2: 1}, d)], [(n - 1, 1)]
        for i, s in enumerate(sequences(3)):
            for d in (None, 1, -1):
                yield [Ev("a", s, {1: 1, 2: 0, 3: 1}, d)], [(0, 0), (2, None), (2, 0)]
        if deep:
            for s in sequences(4):
                for d in (None, 1, -1):
                    yield [Ev("a", s, {1: 1, 2: 0, 3: 1, 4: 2}, d)], [(3, 1)]
    else:
        for s in ("-+-", "+-+", "-0+", "+0-", "0+0", "0-+", "+0+", "-0-", "--+", "++-"):
            for d in (None, 1, -1):
                yield [Ev("a", s, {1: 0, 2: 1}, d)], [(1, 1)]


def several():
    A_ = lambda *a, **k: Ev("a", *a, **k)
    B_ = lambda *a, **k: Ev("b", *a, **k)
    C_ = lambda *a, **k: Ev("c", *a, **k)
    yield [A_("-+-", {1: 0, 2: 1}), B_("--+", {2: 0})], [(1, 1)]
    yield [A_("-++", {1: 2}), B_("+--", {1: 0})], [(1, 1)]
    yield [A_("---"), B_("+0-")], [(1, 1)]
    yield [A_("--+", {2: 1}, flat=[1]), B_("+--", {1: 1}, flat=[2])], [(1, 1)]
    yield [A_("---+", {3: 1}, flat=[1, 2], direction=1), B_("++--", {2: 0}, flat=[1, 3], direction=-1)], [(2, 1)]
    yield [A_("-+-", {1: 0, 2: 1}, direction=-1), B_("-+-", {1: 0, 2: 1}, direction=1)], [(1, 1)]
    yield [A_("0+-", {2: 1}, direction=1), B_("+0-"), C_("-++", {1: 1})], [(1, 1)]
    yield [A_("+++"), B_("---"), C_("-+-", {1: 2, 2: 2}, direction=-2)], [(0, 0), (1, 1)]


def judge(rep, key, T, evs, P, res, what):
    """event times against the specification"""
    _, occ, _, _ = spec(evs, P)
    te = res[2]
    rep.ob(f"{key}/one-list-per-event", len(te) == len(evs), f"{what}: {len(te)} lists of event times")
    if len(te) != len(evs):
        return
    for e, got, want in zip(evs, te, occ):
        settled(T, got)
        exact = [T.g.place(p) for p in want]
        rep.ob(f"{key}/occurrences", len(got) == len(want) and all(x == y for x, y in zip(got, exact)),
               f"{what}: {e.show()} is recorded at {got}, expected {','.join(map(place_show, want)) or 'no occurrence'}")


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        full = name == "ForwardEuler"
        with rep.unit(key, w, "returns"):
            T = EventTrack(w, name, rhs="auto", m=3)
            todo = [(a, b, "list") for a, b in list(single(full, deep)) + list(several())]
            if full:
                todo += [(a, b, f) for f in ("single", "tuple") for a, b in [([Ev("a", "-+-", {1: 0, 2: 1}, d)], [(1, 1)])
                                                                          for d in (None, 1, -1)]]
                todo += [(a, b, "tuple") for a, b in several()]
            for evs, P, form in todo:
                got = drive(rep, key, T, evs, P, form=form)
                if got:
                    judge(rep, key, T, evs, P, got[1], describe(evs, P))
            for ev, what in ((None, "None"), ((), "()"), ("[]", "[]")):
                e = ListV(w.itp.new(T.base, ())) if ev == "[]" else ev
                got = drive(rep, key, T, [], [(0, 0), (1, None)], events=e)
                if got:
                    rep.ob(f"{key}/no-events", got[1][2] == [] and got[1][3] == [],
                           f"events={what}: {got[1][2]} and {got[1][3]} returned")
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C14", tier,
                 "Abstract interpretation of run_events() on every solver with uninterpreted event functions whose signs at "
                 "the step ends are facts of the abstract state: all sign sequences over up to 3 steps (4 in the thorough "
                 "tier) for all direction settings; the recorded times are compared as normal forms with the occurrences "
                 "the sign changes prescribe.",
                 ["real arithmetic", "the root of a sign change lies strictly inside the step, at a symbolic place (C15 decides "
                  "the root finder)", "variable-step solvers on rhs that are constant in t and y",
                  "event functions that are zero at both ends of a step are not compared"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
