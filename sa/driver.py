"""Solvers on a grid of known step times, for the checks of the public driving methods.

Every time of interest is tn + k*h or tn + k*h + d_i with 0 < d_0 < d_1 < ... < h as facts of the
abstract state, so every comparison the drivers make is decided, for all step sizes and all offsets
in that order at once; the right-hand side stays uninterpreted."""
from __future__ import annotations

from .harness import *
from .nf import and_
from .published import PAIRS
from .values import Opaque, lift

NOFF = 3


class Grid:
    """h and offsets 0 < off[0] < off[1] < ... < h"""

    def __init__(self, m=NOFF - 1):
        self.h = H
        self.off = [S(f"d{i}", "pos") for i in range(m)]
        self.facts = and_(*[gt(b, a) for a, b in zip(self.off, self.off[1:] + [H])])
        self.tn = S("tn")

    def t(self, k):
        return self.tn + self.h.scale(k)

    def place(self, p):
        """p = (k, i): the i-th offset after t(k) (None: t(k) itself)"""
        k, i = p
        return self.t(k) if i is None else self.t(k) + self.off[i]


def index_of(p):
    """number of steps after which the time is covered"""
    k, i = p
    return k if i is None else k + 1


def const_rhs(name, zero=False):
    def call(itp, st, o, args, kw):
        itp.eff(st, "rhs", name, tuple(M.term(itp, st, a) for a in args), tuple(args))
        return A.vec(itp, st, NF({}) if zero else Vv(name), "rhs")
    return Opaque((name, "const"), None, call, note="fn")


class Track:
    """a solver of class `name` at time tn with at least one real past step, and an identical
    reference solver without t_bound"""

    def __init__(self, w, name, rhs="opaque", m=NOFF - 1, tb=None, pre=1, **kw):
        self.w, self.name = w, name
        self.cls = w.solver_classes()[name]
        self.g = Grid(m)
        self.embedded = name in PAIRS
        if rhs == "auto":
            rhs = "zero" if name == "DOP853" else "const" if self.embedded else "opaque"
        self.rhs = rhs
        st = self.st = w.fork()
        st.guard = self.g.facts
        w.itp.loopinfo.clear()
        self.f = opaque_fn("f") if rhs == "opaque" else const_rhs("c", rhs == "zero")
        if self.embedded:
            kw.setdefault("max_step", self.g.h)
        self.kw = kw
        self.sol = self.build(st, tb, pre)
        self.ref = self.build(st, None, pre) if tb is not None else None
        self.base = st.fork()
        self._at = {}
        self._interp = {}
        w.itp.effects.clear()
        w.itp.sinks[:] = [[]]

    def build(self, st, tb, pre):
        w, g = self.w, self.g
        kw = dict(self.kw)
        if tb is not None:
            kw["t_bound"] = tb
        if self.embedded:
            sol = make(w, st, self.cls, f=self.f, t0=g.t(-pre), h=g.h, **kw)
            for _ in range(pre):
                w.method(st, sol, "skip")
        else:
            sol = make(w, st, self.cls, f=self.f, t0=g.t(-9), h=g.h, **kw)
            cache = w.attr(st, sol, "cache")
            n = w.const(st, self.cls, "LEN_HISTORY")
            for i in range(n):
                ti = g.t(i - n + 1)
                yi = Vv(f"y[{i - n + 1}]")
                fi = NF.of(app("f", ti, yi, kind="v")) if self.rhs == "opaque" else Vv("c")
                w.method(st, cache, "push", ti, A.vec(w.itp, st, yi), A.vec(w.itp, st, fi))
        return sol

    @property
    def oldest(self):
        """index of the oldest time in the history"""
        return 1 - self.w.const(self.st, self.cls, "LEN_HISTORY")

    # ------------------------------------------------------------- reference
    def ref_state(self, k):
        """a private copy of the state after k undriven steps"""
        if k not in self._at:
            if k == 0:
                self._at[0] = self.base.fork()
            else:
                st = self.ref_state(k - 1).fork()
                self.w.method(st, self.ref or self.sol, "skip")
                self._at[k] = st
        return self._at[k]

    def rec(self, k):
        """(t, y, f) after k steps, as values"""
        w, st = self.w, self.ref_state(k)
        s = self.ref or self.sol
        return tuple(w.val(st, w.attr(st, s, a)) for a in ("t", "y", "f"))

    def interp(self, p):
        """reference value at place p: interpolated as soon as the solver has covered it"""
        k = max(index_of(p), 0)
        key = (p, k)
        if key not in self._interp:
            st = self.ref_state(k).fork()
            self._interp[key] = self.w.val(st, self.w.method(st, self.ref or self.sol, "interpolate",
                                                             self.g.place(p)))
        return self._interp[key]

    # ---------------------------------------------------------------- driven
    def drive(self, fn):
        """fn(state) on a fresh copy of the base state -> Outcome"""
        st = self.base.fork()
        w = self.w
        w.itp.effects.clear()
        w.itp.sinks[:] = [[]]
        ok, v, raised, eff = w.capture(st, fn)
        return Outcome(self, st, ok, v, raised, eff)


class Outcome:
    def __init__(self, track, st, ok, value, raised, effects):
        self.track, self.st, self.ok, self.value, self.raised, self.effects = track, st, ok, value, raised, effects

    @property
    def exc(self):
        """name of the exception if the call always raises, None if it never does"""
        if self.ok and not self.raised:
            return None
        if not self.ok and len({e.name for _, e, _ in self.raised}) == 1:
            return self.raised[-1][1].name
        return "some paths raise " + ",".join(sorted({e.name for _, e, _ in self.raised}))

    def final(self, a="t"):
        """value of a solver attribute afterwards, on the returning or on the raising path"""
        w = self.track.w
        st = self.st if self.ok else self.raised[-1][0]
        return w.val(st, w.attr(st, self.track.sol, a))

    def state(self):
        return tuple(self.final(a) for a in ("t", "y", "f"))

    def items(self):
        return self.track.w.itp.iter_items(self.st, self.value)

    def rows(self, v):
        """rows of a 2-d array (or cells of a 1-d one), as values"""
        w, itp = self.track.w, self.track.w.itp
        return [w.val(self.st, itp.getitem(self.st, v, i)) for i in range(shape0(w, self.st, v))]


def shape0(w, st, v):
    sh = w.attr(st, v, "shape")
    items = w.itp.iter_items(st, sh)
    n = items[0]
    if isinstance(n, NF) and n.is_const():
        n = int(n.const_val())
    if not isinstance(n, int):
        raise Unsupported(f"length {n!r} of the result is not known")
    return n


def same(a, b):
    """equality of two values up to rounding of published constants"""
    return a == b or snap(a, 10) == snap(b, 10)


# ------------------------------------------------------------------- sharding

SHARDS = 4


def shards(run, root, *args):
    """both configurations, the solvers split over processes"""
    return [(run, (root,) + args + (nn, i)) for nn in (False, True) for i in range(SHARDS)]


def select(w, shard):
    """solver names of a shard; ForwardEuler, analysed most deeply, is alone in shard 0"""
    names = sorted(w.solver_classes())
    if shard is None:
        return names
    if shard == 0:
        return [n for n in names if n == "ForwardEuler"]
    rest = [n for n in names if n != "ForwardEuler"]
    return [n for i, n in enumerate(rest) if i % (SHARDS - 1) == shard - 1]


def need_all(rep, w, tag, done, shard):
    names = select(w, shard)
    rep.need(f"{tag}solvers" + (f" in part {shard}" if shard is not None else ""), done, len(names))
    rep.need(f"{tag}registered solvers", len(w.solver_classes()), 26)
