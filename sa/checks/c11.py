"""C11: run() pairs every requested time with the solution at that time, in the requested order."""
from __future__ import annotations

import itertools

from ..driver import *
from ..report import Report


def order(p):
    return (p[0], -1 if p[1] is None else p[1])


POOL = [(-1, 1), (0, None), (0, 0), (0, 1), (1, None), (1, 0), (2, None), (2, 1)]


def show(ps):
    return ",".join(f"t{k:+d}" + ("" if i is None else f"+d{i}") for k, i in ps)


def spec(P, tb, oldest):
    """('raise',) or (places returned, steps taken)"""
    if min(map(order, P)) < (oldest, -1):
        return None
    if tb is not None and max(map(order, P)) > order(tb):
        return None
    steps = max(0, max(index_of(p) for p in P))
    if tb is not None and steps > tb[0]:
        steps = tb[0]
        P = [p for p in P if max(index_of(p), 0) <= steps]
    return P, steps


def request(w, st, T, P, form="array"):
    cells = [T.g.place(p) for p in P]
    if form == "scalar":
        return cells[0]
    if form == "list":
        return w.itp.call(st, w.itp.builtins["list"], [tuple(cells)], {}) if "list" in getattr(w.itp, "builtins", {}) \
            else tuple(cells)
    if form == "tuple":
        return tuple(cells)
    return A.alloc(w.itp, st, cells, (len(cells),))


def compare(rep, key, T, P, tb, out, results, where=""):
    """one driven outcome against the specification"""
    want = spec(P, tb, T.oldest)
    if want is None:
        rep.ob(f"{key}/out-of-range-raises", out.exc == "ValueError",
               f"requesting {show(P)} with t_bound {tb and show([tb])}: {out.exc or 'returns'} instead of ValueError", where)
        if not out.ok:
            rep.ob(f"{key}/out-of-range-changes-nothing", same(out.state(), T.rec(0)),
                   f"requesting {show(P)} raised after changing the solver")
        return
    places, steps = want
    if out.exc is not None:
        rep.ob(f"{key}/returns", False, f"requesting {show(P)}: {out.exc}", str(out.raised and out.raised[-1][2]))
        return
    ts, ys = results(out)
    tr, yr = out.rows(ts), out.rows(ys)
    what = f"requesting {show(P)}" + (f" with t_bound {show([tb])}" if tb else "")
    rep.ob(f"{key}/count", len(tr) == len(places) and len(yr) == len(places),
           f"{what}: {len(tr)} times and {len(yr)} states returned, {len(places)} expected")
    if len(tr) == len(places) == len(yr):
        rep.ob(f"{key}/times", all(a == T.g.place(p) for a, p in zip(tr, places)),
               f"{what}: times {tr} returned")
        for p, y in zip(places, yr):
            rep.ob(f"{key}/state-at-time", same(y, T.interp(p)),
                   f"{what}: the state paired with {show([p])} is not the solution there")
    rep.ob(f"{key}/steps-taken", same(out.state(), T.rec(steps)),
           f"{what}: the solver does not end after {steps} steps but at {out.final('t')!r}")
    rep.count("requested_times", len(P))


def sequences(deep):
    for p in POOL:
        yield (p,)
    yield from itertools.product(POOL, repeat=2)
    n = 0
    for s in itertools.product(POOL, repeat=3):
        n += 1
        if deep or n % 5 == 0 or len(set(s)) < 3 and n % 2:
            yield s
    if deep:
        for n, s in enumerate(itertools.product(POOL[1:], repeat=4)):
            if n % 7 == 0:
                yield s


FEW = [((1, 0),), ((0, None),), ((-1, 1),), ((2, None),), ((1, 0), (0, 1)), ((0, 0), (0, 1), (2, 1)),
       ((2, 1), (0, 1), (1, None)), ((1, None), (1, None)), ((-1, 1), (1, 0)), ((2, 0), (-1, 1), (0, None), (1, 1))]
BOUNDED = [(P, tb) for P in [((1, 0),), ((1, 0), (0, 1)), ((0, 1), (1, None), (1, 0)), ((2, 0), (0, 0), (1, None), (-1, 1)),
                             ((1, 1), (0, None)), ((1, None),)]
           for tb in [(0, None), (1, None), (1, 0), (1, 1), (2, None), (2, 0), (2, 1), (3, None)]]


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    results = lambda o: o.items()
    done = 0
    for name in select(w, shard):
        T = U = None
        key = tag + name
        full = name == "ForwardEuler"
        with rep.unit(key, w, "returns"):
            T = Track(w, name, "auto")
            for P in (sequences(deep) if full else FEW):
                out = T.drive(lambda st: w.method(st, T.sol, "run", request(w, st, T, P)))
                compare(rep, key, T, list(P), None, out, results)
                rep.count("request_placements")
            before = [(T.oldest - 1, 1), (T.oldest - 1, None)]
            for p in before:
                for P in ([p], [(1, 0), p], [p, (0, None)]):
                    out = T.drive(lambda st: w.method(st, T.sol, "run", request(w, st, T, P)))
                    compare(rep, key, T, P, None, out, results)
            for form in ("scalar", "tuple"):
                for P in ([(1, 0)], [(0, None)], [(2, None)]):
                    out = T.drive(lambda st: w.method(st, T.sol, "run", request(w, st, T, P, form)))
                    compare(rep, f"{key}/{form}", T, P, None, out, results)
            done += 1
        for P, tb in BOUNDED:
            if not full and not deep and (tb[1] == 1 or len(P) == 1):
                continue
            with rep.unit(f"{key}/t_bound", w, "returns"):
                B = Track(w, name, "auto", tb=Grid().place(tb))
                out = B.drive(lambda st: w.method(st, B.sol, "run", request(w, st, B, P)))
                compare(rep, f"{key}/t_bound", B, list(P), tb, out, results)
                rep.count("request_placements")
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C11", tier,
                 "Abstract interpretation of run() on every solver with symbolic start time, step and history, and an "
                 "uninterpreted rhs; requested times and t_bound are placed symbolically in the step intervals "
                 "(before, at, between step times, repeated, unsorted), so every comparison is decided from the facts; "
                 "returned times, states and the final solver state are compared as normal forms with those of "
                 "undriven steps and interpolations.",
                 ["real arithmetic", "up to 3 requested times (4 in the thorough tier) within 3 steps",
                  "variable-step solvers on rhs that are constant in t and y (every trial accepted)",
                  "a single step and a single interpolation are what C01, C02 and C06 decide"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
