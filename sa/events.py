"""Uninterpreted event functions on the grid of sa/driver.py.

An event is an opaque g_e(t, y) with its terminal/direction attributes.  Its sign at every step end is a
fact of the abstract state; the root finder that locates a sign change is summarised by contract (C24
decides the contract on its source): called on [t_{k-1}, t_k] for g_e along the interpolated solution
it returns an end at which the value is zero, or a time strictly inside, placed symbolically."""
from __future__ import annotations

from .driver import *
from .nf import NEG, POS, ZERO, cmp_
from .values import Bound, ExcV, Func, ListV, Opaque, Phi, UNDEF, gated_leaves, leaves

SIGN = {"-": NEG, "0": ZERO, "+": POS}


class Ev:
    """signs: one of -0+ per step end t_0, t_1, ...; at: {interval: place of the root inside it};
    flat: step ends (k) at which the value is still that of step end k-1, all others differ from the one before"""

    def __init__(self, name, signs, at=None, direction=None, terminal=None, flat=()):
        self.flat = frozenset(flat)
        self.name, self.signs, self.at, self.direction, self.terminal = name, signs, dict(at or {}), direction, terminal

    def fn(self):
        attrs = {}
        if self.direction is not None:
            attrs["direction"] = self.direction
        if self.terminal is not None:
            attrs["terminal"] = self.terminal
        return opaque_fn("g" + self.name, kind="s", attrs=attrs)

    def show(self):
        return f"{self.name}[{self.signs}" + "".join(f" same value at t{k:+d}" for k in sorted(self.flat)) + (f" direction={self.direction}" if self.direction is not None else "") + \
            (" terminal" if self.terminal else "") + "]"

    # ------------------------------------------------------------- specification
    def occurrence(self, k):
        """place of the occurrence of step k (from t_{k-1} to t_k), or None"""
        a, b = self.signs[k - 1], self.signs[k]
        up, down = a in "-0" and b in "0+", a in "+0" and b in "0-"
        d = self.direction or 0
        if not (up if d > 0 else down if d < 0 else up or down):
            return None
        if b == "0":
            return (k, None)
        if a == "0":
            return (k - 1, None)
        return (k - 1, self.at.get(k, 0))


def order(p):
    return (p[0], -1 if p[1] is None else p[1])


def spec(evs, P, tb=None):
    """what run_events has to return for sorted requests P (all after t_0) and signs of evs:
    (places of the times returned, [places of each event], end place or None, steps)"""
    need = max([index_of(p) for p in P] + [0])
    occ = [[] for _ in evs]
    for k in range(1, need + 1):
        if tb is not None and k > tb[0]:
            kept = [p for p in P if index_of(p) <= tb[0]]
            return kept, occ, None, tb[0]
        ends = []
        for e, o in zip(evs, occ):
            p = e.occurrence(k)
            if p is not None and not (o and o[-1] == p):
                o.append(p)
            if p is not None and e.terminal:
                ends.append(p)
        if ends:
            end = min(ends, key=order)
            occ = [[p for p in o if order(p) <= order(end)] for o in occ]
            kept = [p for p in P if order(p) < order(end)]
            if len(kept) < len(P):
                kept.append(end)
            return kept, occ, end, k
    return list(P), occ, None, need


class EventTrack(Track):
    """Track with a root-finder summary that knows where the scenario puts the roots"""

    def __init__(self, w, name, **kw):
        super().__init__(w, name, **kw)
        self.located = []        # (function name, interval, ok, where, kwargs) of every root search
        self.problems = []
        w.itp.module_summaries["nbkode.nbcompat.zeros"] = self.summary
        self.evs = []

    def facts(self, evs):
        out = []
        for e in evs:
            last = None
            for k, s in enumerate(e.signs):
                t, y, _ = self.rec(k)
                g = NF.of(app("g" + e.name, t, term_of(y), kind="s"))
                out.append(cmp_(g, {SIGN[s]}))
                if k and s == e.signs[k - 1] != "0":
                    out.append(cmp_(g - last, {ZERO} if k in e.flat else {NEG, POS}))
                last = g
        return and_(*out)

    def summary(self, itp, st, f, args, kw):
        from .world import zeros_summary
        vars_ = itp.bind_args(st, f, list(args), dict(kw))
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if len(names) < 3 or not isinstance(vars_.get(names[0]), (Func, Bound, Opaque)) or not self.evs \
                or not all(number(M.val(itp, st, vars_[n])) for n in names[1:3]):
            return zeros_summary(itp, st, f, args, kw)
        w = self.w
        func, extra = vars_[names[0]], itp.iter_items(st, vars_.get("args", ()))
        lo, hi = (NF.of(M.val(itp, st, vars_[n])) for n in names[1:3])
        k = None
        for j in range(1, 6):
            if hi == self.rec(j)[0] and lo == self.rec(j - 1)[0]:
                k = j
        where = f"{itp.where[0]}:{itp.where[1]}"
        if k is None:
            self.problems.append(("interval", f"root searched in [{lo!r}, {hi!r}], which is not the step just taken", where))
            raise Unsupported("the interval of a root search is not a step")
        # the function searched, at a generic time inside the step
        T = NF.of(T_HOLE)
        s2 = st.fork(and_(st.guard, gt(T, lo), gt(hi, T)))
        v = M.val(itp, s2, itp.call(s2, func, [T] + list(extra), {}))
        ref = self.ref_state(k).fork()
        ref.guard = and_(ref.guard, gt(T, lo), gt(hi, T))
        y = w.val(ref, w.method(ref, self.ref or self.sol, "interpolate", T))
        found = None
        for e in self.evs:
            if all(NF.of(x) == NF.of(app("g" + e.name, T, term_of(y), kind="s")) or
                   snap(NF.of(x), 10) == snap(NF.of(app("g" + e.name, T, term_of(y), kind="s")), 10)
                   for _, x in cases(s2, v)):
                found = e
        if found is None:
            self.problems.append(("function", "the function whose root is searched is not an event function along the "
                                  f"solution: {v!r}"[:300], where))
            raise Unsupported("not an event function")
        a, b = found.signs[k - 1], found.signs[k]
        self.located.append((found.name, k, f, {n: v for n, v in vars_.items() if n not in names[:3] and n != "args"}, where))
        if a == "0":
            root = lo
        elif b == "0":
            root = hi
        elif a == b:
            itp.raise_(st, ExcV("ValueError", ("no sign change",)))
        else:
            root = self.g.place((k - 1, found.at.get(k, 0)))
        itp.call(st, func, [root] + list(extra), {})
        return root

    def events(self, evs, P, form="list", scalar=False, events=UNDEF):
        """run_events on a fresh copy of the base state"""
        itp, w = self.w.itp, self.w
        self.evs = evs
        self.located, self.problems = [], []
        facts = self.facts(evs)

        def call(st):
            st.guard = and_(st.guard, facts)
            cells = [self.g.place(p) for p in P]
            req = cells[0] if scalar else A.alloc(itp, st, cells, (len(cells),))
            self.request = req
            fs = [e.fn() for e in evs]
            if events is not UNDEF:
                ev = events
            elif form == "single":
                ev = fs[0]
            elif form == "tuple":
                ev = tuple(fs)
            else:
                ev = ListV(itp.new(st, tuple(fs)))
            return w.method(st, self.sol, "run_events", req, ev)
        try:
            return self.drive(call)
        finally:
            self.evs = []


def number(v):
    return isinstance(v, NF) and not v.is_vec() or isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def term_of(y):
    return y


def read(out):
    """(times, states, [event times], [event states]) as values"""
    w, itp, st = out.track.w, out.track.w.itp, out.st
    parts = out.items()
    if len(parts) != 4:
        raise Unsupported(f"run_events returns {len(parts)} values")
    ts, ys = out.rows(parts[0]), out.rows(parts[1])
    te = [[w.val(st, x) for x in itp.iter_items(st, l)] for l in itp.iter_items(st, parts[2])]
    ye = [[w.val(st, x) for x in itp.iter_items(st, l)] for l in itp.iter_items(st, parts[3])]
    return ts, ys, te, ye


# ---------------------------------------------------------------- shared verdicts


class Loose(Unsupported):
    """a value computed by a loop the analysis does not resolve"""


def place_show(p):
    return f"t{p[0]:+d}" + ("" if p[1] is None else f"+d{p[1]}")


def describe(evs, P, tb=None):
    return f"events {', '.join(e.show() for e in evs)}, requests {','.join(map(place_show, P))}" + \
        (f", t_bound {place_show(tb)}" if tb else "")


def settled(T, ts):
    """no loop symbol of the analysis in these times"""
    for x in ts:
        for a in all_atoms(NF.of(x)):
            if a.key[0] == "sym" and LOOPSYM.match(a.key[1]):
                raise Loose(f"an event time depends on a loop that is not resolved: {x!r}")


import re  # noqa: E402
from .nf import all_atoms  # noqa: E402

LOOPSYM = re.compile(r"^(m|k)\d+(\.|$)")


def drive(rep, key, T, evs, P, tb=None, **kw):
    """-> (outcome, (ts, ys, te, ye)) or None when there is nothing to compare (reported)"""
    try:
        out = T.events(evs, P, **kw)
    except Unsupported:
        if T.problems:
            kind, msg, where = T.problems[0]
            rep.ob(f"{key}/search-{kind}", False, f"{describe(evs, P, tb)}: {msg}", where)
            return None
        raise
    if out.exc is not None:
        rep.ob(f"{key}/returns", False, f"{describe(evs, P, tb)}: {out.exc}",
               str(out.raised and out.raised[-1][2]))
        return None
    rep.count("event_scenarios")
    return out, read(out)
