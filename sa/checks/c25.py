"""C25: a new solver stands at the initial condition, whatever form it is given in."""
from __future__ import annotations

from ..driver import *
from ..published_names import multistep
from ..report import Report
from ..values import Arr, ListV, Opaque, SliceV


def forms(w):
    itp = w.itp
    a, b = S("a"), S("b")
    ints = lambda st: (A.casting(itp, st, A.alloc(itp, st, [3, 4], (2,)), "int"))
    return {
        "array of any length": (None, lambda st: A.vec(itp, st, Vv("y0"))),
        "number": ([a], lambda st: a),
        "0-d array": ([a], lambda st: A.alloc(itp, st, [a], ())),
        "integer": ([NF.const(3)], lambda st: 3),
        "list": ([a, b], lambda st: ListV(itp.new(st, (a, b)))),
        "tuple": ([a, b], lambda st: (a, b)),
        "list of one": ([a], lambda st: ListV(itp.new(st, (a,)))),
        "array of two": ([a, b], lambda st: A.alloc(itp, st, [a, b], (2,))),
        "reversed view": ([b, a], lambda st: itp.getitem(st, A.alloc(itp, st, [a, b], (2,)), SliceV(None, None, -1))),
        "list of integers": ([NF.const(3), NF.const(4)], lambda st: ListV(itp.new(st, (3, 4)))),
        "array of integers": ([NF.const(3), NF.const(4)], ints),
        "number and integer": ([a, NF.const(4)], lambda st: (a, 4)),
    }


def times(w):
    return {"number": (S("t0"), lambda st: S("t0")), "integer": (NF.const(2), lambda st: 2),
            "0-d array": (S("t0"), lambda st: A.alloc(w.itp, st, [S("t0")], ()))}


def rhs(w, log, n):
    def call(itp, st, o, args, kw):
        t, y = args[:2]
        log.append((t, y, itp.elem_cast.get(y.sid) if isinstance(y, Arr) else None))
        if n is None:
            v = lift(lambda t, y: NF.of(app("f", NF.of(t), NF.of(y), kind="v")), M.val(itp, st, t), M.val(itp, st, y))
            return A.vec(itp, st, v, "rhs")
        tv, cs = M.val(itp, st, t), [M.val(itp, st, c) for c in A.cells(itp, st, y)] if isinstance(y, Arr) else [M.val(itp, st, y)]
        return A.alloc(itp, st, [lift(lambda t, *ys, i=i: NF.of(app(f"f{i}", NF.of(t), *[NF.of(y) for y in ys], kind="s")), tv, *cs) for i in range(n)], (n,))
    return Opaque(("f",), None, call, note="fn")


def cells(w, st, v):
    return [NF.of(w.val(st, c)) for c in A.cells(w.itp, st, v)] if isinstance(v, Arr) else [v]


def build(w, st, cls, name, f, t0, y0, **kw):
    kw["first_step" if name in PAIRS else "h"] = H
    if multistep(name):
        kw.setdefault("first_stepper_cls", None)
    return w.call(st, cls, f, t0, y0, **kw)


def initial(rep, w, key, name, cls, yform, tform):
    want, give = forms(w)[yform]
    t_want, t_give = times(w)[tform]
    what = f"y0 {yform}, t0 {tform}"
    st = w.fork()
    st.guard = Grid().facts
    log = []
    w.itp.loopinfo.clear()
    f = rhs(w, log, want and len(want))
    ok, sol, raised, _ = w.capture(st, lambda s: build(w, s, cls, name, f, t_give(s), give(s)))
    rep.ob(f"{key}/accepted", ok and not raised, f"{what}: construction raises {[e.name for _, e, _ in raised]}")
    if not ok:
        return
    y, fv = w.attr(st, sol, "y"), w.attr(st, sol, "f")
    t = w.val(st, w.attr(st, sol, "t"))
    if want is None:
        want = [Vv("y0")]
        f_want = [NF.of(app("f", t_want, Vv("y0"), kind="v"))]
        dims = ["n"]
    else:
        f_want = [NF.of(app(f"f{i}", t_want, *want, kind="s")) for i in range(len(want))]
        dims = [len(want)]
    rep.ob(f"{key}/time", isinstance(t, (NF, int, Fraction)) and NF.of(t) == NF.of(t_want), f"{what}: the solver starts at t = {t!r}")
    rep.ob(f"{key}/shape", isinstance(y, Arr) and A.dims(y) == dims, f"{what}: y is not one-dimensional of length {dims[0]}")
    rep.ob(f"{key}/state", cells(w, st, y) == want, f"{what}: the solver starts at y = {cells(w, st, y)}, not {want}")
    rep.ob(f"{key}/derivative", cells(w, st, fv) == f_want, f"{what}: f = {cells(w, st, fv)} is not the right-hand side there")
    for v in (y, fv):
        rep.ob(f"{key}/double", not isinstance(v, Arr) or w.itp.elem_cast.get(v.sid) is None,
               f"{what}: the state is kept as {w.itp.elem_cast.get(getattr(v, 'sid', None))}")
    rep.ob(f"{key}/called", bool(log), f"{what}: the right-hand side is not evaluated")
    for t, y, kind in log:
        rep.ob(f"{key}/double", kind is None, f"{what}: the right-hand side is called with an array of {kind}")
        rep.ob(f"{key}/shape", isinstance(y, Arr) and A.dims(y) == dims or y in (None,) or isinstance(y, NF) and y.is_vec() and dims == ["n"],
               f"{what}: the right-hand side is called with y = {y!r}")
        rep.ob(f"{key}/scalar-time", not isinstance(t, Arr) or t.ndim == 0, f"{what}: the right-hand side is called with t = {t!r}")
    n = w.const(st, cls, "LEN_HISTORY")
    ts, ys = w.attr(st, sol, "cache", "ts"), w.attr(st, sol, "cache", "ys")
    rows = [w.itp.getitem(st, ys, i) for i in range(n)]
    rep.ob(f"{key}/history", all(cells(w, st, r) == want for r in rows) and
           all(NF.of(w.val(st, w.itp.getitem(st, ts, i))) == NF.of(t_want) for i in range(n)),
           f"{what}: the history does not consist of the initial condition")
    rep.count("initial_conditions")
    if want != [Vv("y0")] and name not in PAIRS:
        first_step(rep, w, key, name, cls, what, st, sol, t_want, want)


def first_step(rep, w, key, name, cls, what, st, sol, t0, ys):
    """the first step from it is the one from an array of the same numbers"""
    ref = w.fork()
    ref.guard = st.guard
    r = build(w, ref, cls, name, rhs(w, [], len(ys)), t0, A.alloc(w.itp, ref, ys, (len(ys),)))
    for s, x in ((st, sol), (ref, r)):
        w.method(s, x, "skip")
    for a in ("t", "y", "f"):
        x, y = w.attr(st, sol, a), w.attr(ref, r, a)
        rep.ob(f"{key}/first-step", cells(w, st, x) == cells(w, ref, y), f"{what}: {a} after the first step is not that of y0 given as array")
        rep.ob(f"{key}/double", not isinstance(x, Arr) or w.itp.elem_cast.get(x.sid) is None, f"{what}: {a} is truncated")


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        cls, key = w.solver_classes()[name], tag + name
        with rep.unit(key, w, "returns"):
            for yf in forms(w):
                for tf in times(w) if deep or yf in ("array of any length", "list", "number") else ("number",):
                    initial(rep, w, key, name, cls, yf, tf)
            done += 1
    need_all(rep, w, tag, done, shard)
    return w


def main(tier, root):
    rep = Report("C25", tier,
                 "Abstract interpretation of construction with t0 and y0 in every form (numbers, integers, lists, tuples, arrays, views, "
                 "integer arrays, which numpy would keep as integers): time, state, derivative, history, arguments of the right-hand "
                 "side and the first step are compared with those of the same numbers in an array of double precision.",
                 ["real arithmetic", "up to two components where they are told apart"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel(shards(run, root, deep)))
