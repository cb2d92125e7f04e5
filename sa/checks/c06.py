"""C06: interpolation inside the recorded history is the documented dense output."""
from __future__ import annotations

from fractions import Fraction

from ..harness import *
from ..nf import NF, and_, app
from ..published import PAIRS, stages
from ..report import Report
from ..trees import dense_defects
from ..values import gated_leaves

DENSE = {n: PAIRS[n]["dense"] for n in PAIRS}
TH = S("theta", "pos")


def leaf_values(w, st, v):
    return [NF.of(x) for _, x in cases(st, w.val(st, v))]


def hermite(t0, y0, f0, t1, y1, f1, th):
    """the cubic with the given end values and slopes, at t0 + th*(t1-t0)"""
    h = t1 - t0
    one = NF.const(1)
    h00 = (one + th.scale(2)) * (one - th) * (one - th)
    h10 = th * (one - th) * (one - th)
    h01 = th * th * (NF.const(3) - th.scale(2))
    h11 = th * th * (th - one)
    return h00 * y0 + h10 * h * f0 + h01 * y1 + h11 * h * f1


def check_hermite(rep, w, key, cls):
    st = w.fork()
    st.guard = gt(1, TH)
    sol = make(w, st, cls)
    hist = fill_history(w, st, sol, cls)
    for i in range(len(hist)):
        t, y, f = hist[i]
        s = st.fork()
        vs = leaf_values(w, s, w.method(s, sol, "interpolate", t))
        rep.ob(f"{key}/knot/{i - len(hist) + 1}", vs and all(snap(v) == y for v in vs),
               f"interpolation at a recorded time gives {vs[0].show(3) if vs else None}")
    for i in range(len(hist) - 1):
        (ta, ya, fa), (tb, yb, fb) = hist[i], hist[i + 1]
        ref = snap(hermite(ta, ya, fa, tb, yb, fb, TH))
        for again in (False, True):
            s = st.fork()
            if again:   # a previous query elsewhere must not matter
                for j in range(len(hist) - 1):
                    w.method(s, sol, "interpolate", hist[j][0] + H * S("theta") if False else hist[j][0] + H.scale(Fraction(1, 3)))
            vs = leaf_values(w, s, w.method(s, sol, "interpolate", ta + H * TH))
            rep.ob(f"{key}/interval/{i - len(hist) + 2}/{'repeated' if again else 'first'}",
                   vs and all(snap(v) == ref for v in vs),
                   f"between the recorded points the value is {vs[0].show(3) if vs else None}, expected the Hermite cubic of "
                   "that interval")
            rep.count("interpolation_queries")
    outside(rep, w, key, st, sol, hist[0][0], hist[-1][0])


def outside(rep, w, key, st, sol, first, last):
    """queries outside the recorded history raise ValueError"""
    for what, t in (("before", first - S("d", "pos")), ("after", last + S("d", "pos"))):
        s = st.fork()
        ok, v, raised, _ = w.capture(s, lambda x: w.method(x, sol, "interpolate", t))
        rep.ob(f"{key}/outside/{what}", not ok and raised and all(e.name == "ValueError" for _, e, _ in raised),
               "a time outside the recorded history is extrapolated instead of rejected")


def polynomials(value, yn, mu, f="f"):
    """value = yn + mu * sum_i p_i(theta) k_i  ->  {stage atom: {power: coefficient}}"""
    rest = value - yn
    out = {}
    th = next(iter(TH.atoms()))
    for a in sorted(rest.atoms(), key=lambda a: a.uid):
        if a.key[0] == "app" and a.key[1] == f and a.kind == "v":
            sp = split_linear(rest, a)
            if sp is None:
                raise NotRK("the dense output is not linear in a stage")
            rest, c = sp
            d = {}
            for m, k in c.t.items():
                e = dict(m)
                p = e.pop(th.uid, 0)
                q = ratio(NF({tuple(sorted(e.items())): Fraction(1)}), mu)
                if q is None or not isinstance(p, int) or p < 0:
                    raise NotRK(f"dense weight {c.show(3)} is not a polynomial times the step")
                d[p] = d.get(p, Fraction(0)) + k * q
            out[a] = d
    if rest.t and any(abs(c) > Fraction(1, 10 ** 12) for c in rest.t.values()):
        raise NotRK(f"dense output leaves {rest.show(3)}")
    return out


class Dense:
    """a successful step from a generic state, then queries inside it"""

    def __init__(self, w, cls, earlier):
        st = self.st = w.fork()
        facts = and_(gt(1, TH), ge(S("tn"), S("t0")))
        self.w = w
        st.guard = facts
        sol = self.sol = make(w, st, cls)
        if earlier:      # a step from the initial state whose interpolant was built (or not) before
            st.guard = and_(st.guard, facts)
            w.method(st, sol, "skip")
            t1 = [NF.of(x) for _, x in cases(st, w.val(st, w.attr(st, sol, "t")))]
            if earlier == "queried":
                w.method(st, sol, "interpolate", S("t0") + (t1[0] - S("t0")).scale(Fraction(1, 2)))
            st.guard = and_(facts, *[ge(S("tn"), t) for t in t1])
        self.hist = fill_history(w, st, sol, cls)
        self.tn, self.yn, _ = self.hist[-1]
        w.method(st, sol, "skip")
        self.t = self.one(w.val(st, w.attr(st, sol, "t")))
        self.y = self.one(w.val(st, w.attr(st, sol, "y")))
        self.mu = self.t - self.tn

    def one(self, v):
        ls = {NF.of(x) for _, x in cases(self.st, v)}
        if len(ls) != 1:
            raise NotRK("path-dependent")
        return next(iter(ls))

    def query(self, st, t):
        return leaf_values(self.w, st, self.w.method(st, self.sol, "interpolate", t))


def check_dense(rep, w, key, name, cls, deep):
    for earlier in ("", "stepped", "queried"):
        k = f"{key}/{earlier or 'first'}"
        with rep.unit(k, w, "interpolates"):
            try:
                d = Dense(w, cls, earlier)
            except NotRK as e:
                rep.ob(f"{k}/form", False, str(e))
                continue
            st = d.st
            for what, t, y in (("new", d.t, d.y), ("old", d.tn, d.yn)):
                s = st.fork()
                vs = d.query(s, t)
                rep.ob(f"{k}/knot/{what}", vs and all(snap(v) == snap(y) for v in vs),
                       f"interpolation at a recorded time gives {vs[0].show(3) if vs else None}")
            for before in (None, "mid", "new", "old"):
                s = st.fork()
                if before:
                    d.query(s, {"mid": d.tn + d.mu.scale(Fraction(1, 2)), "new": d.t, "old": d.tn}[before])
                vs = d.query(s, d.tn + d.mu * TH)
                rep.count("interpolation_queries")
                kk = f"{k}/inside/{'after-' + before if before else 'direct'}"
                if before is None:
                    base = vs
                    for v in vs:
                        judge(rep, kk, name, d, v, deep)
                else:
                    rep.ob(kk, vs and all(snap(v) == snap(b) for v in vs for b in base),
                           "the value inside the last step depends on earlier queries")
            outside(rep, w, k, st, d.sol, d.tn, d.t)


def judge(rep, key, name, d, v, deep):
    try:
        polys = polynomials(v, d.yn, d.mu)
        # stages in dependency order, from the queried value
        index = {}
        order = []

        def visit(a):
            if a in index:
                return
            Y = a.key[3]
            c = ratio(a.key[2] - d.tn, d.mu)
            if c is None:
                raise NotRK("a stage time is not tn + c*step")
            row = {}
            rest = Y - d.yn
            for x in sorted(rest.atoms(), key=lambda q: q.uid):
                if x.key[0] == "app" and x.key[1] == "f":
                    sp = split_linear(rest, x)
                    if sp is None:
                        raise NotRK("stage not linear")
                    q = ratio(sp[1], d.mu)
                    if q is None:
                        raise NotRK("stage weight")
                    row[x] = q
                    rest = sp[0]
            if rest.t:
                raise NotRK("stage leftover")
            for x in row:
                visit(x)
            index[a] = len(order)
            order.append((a, c, row))
        for a in polys:
            visit(a)
    except NotRK as e:
        rep.ob(f"{key}/form", False, f"not a continuous Runge-Kutta formula: {e}")
        return
    rep.ob(f"{key}/form", True)
    A_ = matrix(order, index)
    ps = [polys.get(a, {}) for a, _, _ in order]
    p = DENSE[name]
    rep.count("dense_stages", len(order))
    for t, e in dense_defects(A_, ps, p):
        rep.ob(f"{key}/order/{len_tree(t)}:{t}", e <= Fraction(1, 10 ** 9),
               f"continuous order condition of order {len_tree(t)} violated by {float(e):.2g}")
        rep.count("dense_order_conditions")
    # end points of the polynomial agree with the step
    for i, (a, _, _) in enumerate(order):
        b = sum(ps[i].values(), Fraction(0))
        e = d.y - d.yn
        sp = split_linear(e, a)
        want = ratio(sp[1], d.mu) if sp and sp[1].t else Fraction(0)
        rep.ob(f"{key}/continuous/{i}", want is not None and abs(b - want) <= Fraction(1, 10 ** 9) and ps[i].get(0, 0) == 0,
               "the dense output does not meet the step's end values")


def len_tree(t):
    return 1 + sum(len_tree(s) for s in t)


def run(rep, root, deep, no_numba=False):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    n = 0
    for name, cls in sorted(w.solver_classes().items()):
        key = tag + name
        if name in DENSE:
            check_dense(rep, w, key, name, cls, deep)
        else:
            with rep.unit(key, w, "interpolates"):
                check_hermite(rep, w, key, cls)
        n += 1
    rep.need(f"{tag}solvers", n, 26)
    return w


def main(tier, root):
    rep = Report("C06", tier,
                 "Abstract interpretation of interpolate() after a generic history or step, for every solver and every "
                 "history interval; the value is a polynomial normal form in the position inside the interval and is "
                 "compared with the Hermite cubic of that interval, or checked against the continuous rooted-tree order "
                 "conditions (RungeKutta23 order 3, RungeKutta45 order 4, DOP853 order 7), with and without earlier "
                 "queries and steps.",
                 ["real arithmetic; coefficient tolerance 1e-9 on continuous order conditions",
                  "the step before the query succeeded"])
    deep = tier == "thorough"
    return rep.finish([run(rep, root, deep), run(rep, root, deep, True)])
