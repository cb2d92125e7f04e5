"""Contract of the root finder used to locate events: whatever the sign change, it narrows the step by
halving and returns a point of the final bracket, or an exact zero."""
from __future__ import annotations

from fractions import Fraction

from .driver import *
from .nf import F, NEG, POS, ZERO, all_atoms, cmp_, entails, or_, sat, subst

from .values import Dead, Phi, UNDEF, gated_leaves, leaves

HALVINGS = 30


def sgn(x, *signs):
    return cmp_(NF.of(x), set(signs))


def phi_at(x):
    return NF.of(app("phi", NF.of(x), kind="s"))


class NotBisection(Exception):
    pass


def scalar_at(w, st, loc):
    if loc[0] not in st.heap:
        return None
    v = w.itp.read_loc(st, loc)
    if v is UNDEF:
        return None
    try:
        v = w.val(st, v)
    except (Unsupported, KeyError, TypeError):
        return None
    if all(isinstance(x, (NF, int, Fraction)) and not isinstance(x, bool) for x in leaves(v)):
        return v
    return None


def subst_guard(g, rel):
    if not rel or not isinstance(g, F):
        return g
    return map_leaves(g, lambda nf: subst(nf, rel))


def bisection(w, f, kw, orient):
    """-> list of (ok, rule, message) for f(phi, L, R, **kw) with a sign change of phi from L to R"""
    itp = w.itp
    out = []
    st = w.fork()
    L, W = S("L"), S("width", "pos")
    R = L + W
    st.guard = and_(sgn(phi_at(L), orient), sgn(phi_at(R), -orient))
    facts = st.guard
    saved = itp.module_summaries.pop("nbkode.nbcompat.zeros", None)
    cap, itp.unroll_cap = itp.unroll_cap, 4
    itp.loopinfo.clear()
    n = len(itp.sinks)
    itp.sinks.append([])
    try:
        r = itp.call(st, f, [opaque_fn("phi", kind="s"), L, R], dict(kw))
        ok = True
    except Dead:
        r, ok = None, False
    finally:
        raised = itp.sinks[n]
        del itp.sinks[n:]
        itp.unroll_cap = cap
        if saved is not None:
            itp.module_summaries["nbkode.nbcompat.zeros"] = saved
    bad = [(e.name, where) for s, e, where in raised if sat(and_(s.guard, facts))]
    out.append((not bad, "returns-on-sign-change", f"may raise {bad[:1]} although the function changes sign"))
    if not ok:
        return out
    infos = list(itp.loopinfo.values())
    if len(infos) != 1 or infos[0].back is None:
        raise NotBisection(f"{len(infos)} loops in {f.qual}")
    info = infos[0]
    cell = {loc: (scalar_at(w, info.entry, loc), scalar_at(w, info.head, loc), scalar_at(w, info.back, loc))
            for loc in info.havoc}
    cell = {l: c for l, c in cell.items() if c[1] is not None}

    def carried(entry):
        for l, (e, h, b) in cell.items():
            if e is not None and not isinstance(e, Phi) and NF.of(e) == entry:
                return l
        return None
    la, lb = carried(L), carried(R)
    if la is None or lb is None:
        raise NotBisection("no loop-carried bracket")
    a, b = NF.of(cell[la][1]), NF.of(cell[lb][1])
    mid = (a + b).scale(Fraction(1, 2))
    # values of the function carried along with the bracket
    rel = {}
    for end, x in ((L, la), (R, lb)):
        lv = carried(phi_at(end))
        if lv is not None:
            atoms = [t for t in NF.of(cell[lv][1]).atoms()]
            want = lift(lambda v: phi_at(v), cell[x][2])
            have = cell[lv][2]
            r1 = {atoms[0]: phi_at(cell[x][1])}
            if agree(have, want, info.back.guard, {**r1}):
                rel.update(r1)
    # bracket invariant
    done = False
    why = ""
    for sa, sb in (((orient,), (-orient,)), ((orient,), (-orient, 0)), ((orient, 0), (-orient,))):
        inv = and_(gt(b, a), sgn(phi_at(a), *sa), sgn(phi_at(b), *sb), facts)
        g = and_(subst_guard(info.back.guard, rel), inv)
        good = sat(g) is not False
        for (ga, xa) in gated_leaves(cell[la][2]):
            for (gb, xb) in gated_leaves(cell[lb][2]):
                c = and_(g, subst_guard(and_(ga, gb), rel))
                if not sat(c):
                    continue
                xa_, xb_ = NF.of(xa), NF.of(xb)
                if not ((xa_ == a and xb_ == mid) or (xa_ == mid and xb_ == b)):
                    good, why = False, f"[{a!r}, {b!r}] is followed by [{xa_!r}, {xb_!r}], not by one of its halves"
                elif not (entails(c, sgn(phi_at(xa_), *sa)) and entails(c, sgn(phi_at(xb_), *sb))):
                    good, why = False, "the half that is kept need not contain the sign change"
        if good:
            done = True
            break
    out.append((done, "halves-the-bracket", why))
    if not done:
        return out
    # the last midpoint is an end of the bracket
    ends = [a, b, mid]
    for l, (e, h, x) in cell.items():
        if l in (la, lb) or x is None or isinstance(h, Phi):
            continue
        if all(not sat(and_(info.back.guard, gx, ga, gb)) or NF.of(vx) in (NF.of(va), NF.of(vb))
               for gx, vx in gated_leaves(x) for ga, va in gated_leaves(cell[la][2]) for gb, vb in gated_leaves(cell[lb][2])):
            ends.append(NF.of(h))
    leafs = 0
    for g0, x in gated_leaves(w.val(st, r)):
        g = and_(subst_guard(and_(st.guard, g0), rel), inv)
        if not sat(g):
            continue
        leafs += 1
        x = NF.of(x)
        inside = x in ends
        out.append((inside, "returns-a-point-of-the-bracket", f"returns {x!r}, not a point of the bracket [{a!r}, {b!r}]"))
        # (phi of 'mid' is the value computed in the exiting iteration)
        accurate = or_(sgn(subst(phi_at(x), rel), 0),
                       ge(info.k, NF.const(HALVINGS)),
                       ge(W.scale(Fraction(1, 2 ** HALVINGS)), b - a),
                       ge(NF.const(Fraction(1, 10 ** 9)), b - a))
        out.append((entails(g, accurate), "accurate", "may stop before the bracket is narrow at a point where the event function "
                    f"is not zero (path condition {str(g0)[:160]})"))
    out.append((leafs > 0, "returns", "no returning path"))
    return out


def agree(x, y, g, rel):
    for ga, u in gated_leaves(x):
        for gb, v in gated_leaves(y):
            if sat(and_(g, ga, gb)) and subst(NF.of(u), rel) != subst(NF.of(v), rel):
                return False
    return True
