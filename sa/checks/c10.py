"""C10: step() returns exactly the points the solver went through, one row per step."""
from __future__ import annotations

from ..driver import *
from ..report import Report
from .c09 import arguments, label, placements, spec


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        tracks = {}
        with rep.unit(key, w, "returns"):
            for tb, n, upto in placements(name, deep):
                steps, exc = spec(n, upto, tb)
                if exc:
                    continue
                if tb not in tracks:
                    tracks[tb] = Track(w, name, "auto", tb=Grid().place(tb) if tb else None)
                T = tracks[tb]
                out = T.drive(lambda st: w.method(st, T.sol, "step", **arguments(T, n, upto)))
                what = "step" + label(n, upto, tb)
                if out.exc is not None:
                    rep.ob(f"{key}/returns", False, f"{what}: {out.exc}", str(out.raised[-1][2]))
                    continue
                single = n is None and upto is None
                parts = out.items()
                rep.ob(f"{key}/pair", len(parts) == 2, f"{what} returns {len(parts)} values")
                if len(parts) != 2:
                    continue
                ts, ys = parts
                tr = out.rows(ts)
                rep.ob(f"{key}/times", tr == [T.rec(k)[0] for k in range(1, steps + 1)],
                       f"{what}: times {tr}, not those of the {steps} steps taken")
                if single:
                    y = w.val(out.st, ys)
                    yr = [y] if not (isinstance(y, tuple) and y and y[0] == "arr") else out.rows(ys)
                else:
                    yr = out.rows(ys)
                rep.ob(f"{key}/count", len(yr) == len(tr), f"{what}: {len(tr)} times but {len(yr)} states")
                for k, y in enumerate(yr[:steps], 1):
                    rep.ob(f"{key}/states", same(y, T.rec(k)[1]), f"{what}: row {k} is not the state after step {k}")
                rep.count("calls_analysed")
                rep.count("rows_compared", len(yr))
                # what was returned is what skip() leaves behind, and nothing else changes
                sk = T.drive(lambda st: w.method(st, T.sol, "skip", **arguments(T, n, upto)))
                rep.ob(f"{key}/agrees-with-skip", sk.exc is None and same(sk.state(), out.state()),
                       f"{what} and the same skip leave the solver in different states")
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C10", tier,
                 "Abstract interpretation of step() on every solver with n, upto_t and t_bound placed symbolically; each "
                 "returned time and state row is compared, as a normal form, with the solver's time and state after "
                 "that many undriven steps, and the final state with that of the same skip().",
                 ["real arithmetic", "up to 3 steps per call",
                  "variable-step solvers on rhs that are constant in t and y (every trial accepted)"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
