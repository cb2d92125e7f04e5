"""C03: an implicit step that returns has solved its implicit equation; otherwise it raises and stores nothing."""
from __future__ import annotations

from fractions import Fraction

from ..harness import *
from ..nf import F, NF, POS, ZERO, and_, app, cmp_, entails, sat, subst
from ..report import Report
from ..scalars import fabs, sqrt
from ..values import Phi, UNDEF, gated_leaves, leaves, lift
from .c01 import FORMULAS, reference

TOL = Fraction(148, 10 ** 10)
IMPLICIT = {n: v for n, v in FORMULAS.items() if v[0] in ("AM", "BDF")}


class ImplicitStep:
    def __init__(self, w, cls, fam, k, n):
        self.w, self.n, self.fam, self.k = w, n, fam, k
        itp = w.itp
        st = self.st = w.fork()
        itp.loopinfo.clear()
        f = opaque_system(w, n)
        y0 = A.alloc(itp, st, [S(f"y0.{i}") for i in range(n)], (n,))
        sol = self.sol = make(w, st, cls, f=f, y0=y0)
        cache = w.attr(st, sol, "cache")
        L = w.const(st, cls, "LEN_HISTORY")
        self.tn = S("tn")
        self.hist = []
        for j in range(L):
            t = self.tn - H * NF.const(L - 1 - j)
            ys = [S(f"y[{j - L + 1}].{i}") for i in range(n)]
            fs = [S(f"f[{j - L + 1}].{i}") for i in range(n)]
            w.method(st, cache, "push", t, A.alloc(itp, st, ys, (n,)), A.alloc(itp, st, fs, (n,)))
            self.hist.append((t, ys, fs))
        self.cache = {a: w.val(st, w.attr(st, cache, a)) for a in ("ts", "ys", "fs")}
        itp.effects.clear()
        itp.sinks[:] = [[]]
        w.method(st, sol, "skip")
        self.raised = list(itp.sinks[-1])
        self.loops = dict(itp.loopinfo)
        self.y = cells_of(w, st, w.attr(st, sol, "y"))

    def unchanged(self, st):
        c = self.w.attr(st, self.sol, "cache")
        return all(self.w.val(st, self.w.attr(st, c, a)) == v for a, v in self.cache.items())

    def residual(self, Y):
        """components of the implicit equation at Y"""
        fY = rhs_at("f", self.n, self.tn + H, [NF.of(y) for y in Y])
        out = []
        for i in range(self.n):
            hist = [(t, ys[i], fs[i]) for t, ys, fs in self.hist]
            out.append(NF.of(Y[i]) - reference(self.fam, self.k, hist, H, NF.of(Y[i]), fY[i]))
        return out

    # ------------------------------------------------------- loop invariants
    def iterates(self):
        """loop-carried points P (n cells) with the loop-carried values derived from their residual:
        {derived symbol: expression of P} where the relation holds on entry and is kept by the body"""
        from ..interp import LoopInfo  # noqa: F401
        points = []
        cand = []        # (symbols bound, values at back, relation at back as a function of cells, expression)
        for info in self.loops.values():
            if info.back is None:
                continue
            locs = {loc: self.at(info.head, loc) for loc in info.havoc}
            vecs = {l: c for l, c in locs.items() if c is not None and len(c) == self.n}
            ones = {l: c for l, c in locs.items() if c is not None and len(c) == 1}
            for lp, P in vecs.items():
                ent, bak = self.at(info.entry, lp), self.at(info.back, lp)
                if ent is None or bak is None:
                    continue
                points.append(P)
                Re, Rb = self.lifted(ent, info.entry), self.lifted(bak, info.back)
                R = self.residual(P)
                derived = [(lq, Q, Re, Rb, R) for lq, Q in vecs.items() if lq != lp]
                derived += [(lq, Q, [lift(lambda *r: norm(r), *Re)], [lift(lambda *r: norm(r), *Rb)], [norm(R)])
                            for lq, Q in ones.items() if lq != lp]
                for lq, Q, re, rb, r in derived:
                    qe, qb = self.at(info.entry, lq), self.at(info.back, lq)
                    if qe is None or qb is None:
                        continue
                    if all(self.same(a, b, info.entry.guard) for a, b in zip(qe, re)):
                        b = {}
                        for q, x in zip(Q, r):
                            b.update(self.bind(q, x))
                        if len(b) == len(Q):
                            cand.append((b, qb, rb, info.back.guard))
        # greatest set of relations that all hold on entry and that the body preserves together
        while True:
            rel = {}
            for b, *_ in cand:
                rel.update(b)
            keep = [c for c in cand if all(self.same(a, b, c[3], rel) for a, b in zip(c[1], c[2]))]
            if len(keep) == len(cand):
                return points, rel
            cand = keep

    def bind(self, q, r):
        q = NF.of(q)
        at = list(q.atoms())
        if len(at) == 1 and q == NF.of(at[0]) and at[0].key[0] == "sym":
            return {at[0]: r}
        return {}

    def lifted(self, ys, st):
        return [lift(lambda *c, i=i: self.residual(list(c))[i], *ys) for i in range(self.n)]

    def same(self, a, b, g, rel=None):
        a, b = ([lift(lambda v: subst(NF.of(v), rel), x) for x in (a, b)] if rel else (a, b))
        for ga, x in gated_leaves(a):
            for gb, y in gated_leaves(b):
                c = and_(g, ga, gb)
                if NF.of(x) != NF.of(y) and not close(NF.of(x), NF.of(y)) \
                        and snap(NF.of(x), 10) != snap(NF.of(y), 10) and sat(c):
                    return False
        return True

    def at(self, st, loc):
        if loc[0] not in st.heap:
            return None
        v = self.w.itp.read_loc(st, loc)
        if v is UNDEF:
            return None
        try:
            cs = cells_of(self.w, st, v)
        except (Unsupported, KeyError):
            return None
        if not all(isinstance(x, NF) or isinstance(x, (int, Fraction)) and not isinstance(x, bool)
                   for c in cs for x in leaves(c)):
            return None
        return cs


def close(a, b):
    d = a - b
    return all(abs(c) <= Fraction(1, 10 ** 13) for c in d.t.values())


def norm(r):
    s = NF({})
    for x in r:
        s = s + NF.of(x) * NF.of(x)
    return NF.of(sqrt(s))


def small(v, tol=TOL):
    return cmp_(NF.of(fabs(NF.of(v))) - NF.const(tol), {ZERO, -POS})


def solved(s, g, y, points, rel):
    """does the guard imply that y (cells) satisfies the equation to tolerance?"""
    g = snap(subst_f(g, rel), 10)
    R = s.residual([subst(NF.of(c), rel) for c in y])
    if entails(g, snap(small(norm(R)), 10)):
        return "residual"
    if s.n == 1:
        leaf = NF.of(y[0])
        for a in points:
            for b in points:
                if a is b:
                    continue
                pa, pb = NF.of(a[0]), NF.of(b[0])
                ra, rb = s.residual(a)[0], s.residual(b)[0]
                if entails(g, cmp_(pa - pb, {ZERO})) and (entails(g, cmp_(leaf - pa, {ZERO}))):
                    return "fixed point"
                if snap(subst(leaf, rel), 10) == snap((pa * rb - pb * ra) * (rb - ra).pow(-1), 10):
                    for p in (pa, pb):
                        if entails(g, snap(subst_f(small(leaf - p), rel), 10)):
                            return "secant correction"
    return None


def subst_f(f, rel):
    if not rel:
        return f
    return map_leaves(f, lambda nf: subst(nf, rel)) if isinstance(f, F) else f


def run(rep, root, sizes, no_numba=False):
    w = World(root, no_numba, summarise=False)
    w.itp.branching_cap = 1
    classes = w.solver_classes()
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in sorted(IMPLICIT):
        fam, k = IMPLICIT[name]
        if name not in classes:
            rep.error(f"{tag}{name}: solver not registered")
            continue
        for n in sizes:
            key = f"{tag}{name}/n={n}"
            with rep.unit(key, w, "step-returns"):
                s = ImplicitStep(w, classes[name], fam, k, n)
                points, rel = s.iterates()
                rep.count("loop_points", len(points))
                rep.count("residual_invariants", len(rel))
                how = set()
                ys = s.y
                ok = True
                msg = ""
                cnt = 0
                for g, y in joint(ys, s.st.guard):
                    cnt += 1
                    r = solved(s, g, list(y), points, rel)
                    how.add(r)
                    if r is None:
                        ok = False
                        msg = (f"the step can return {NF.of(y[0]).show(2)[:120]} without having met the "
                               f"convergence criterion; path condition {str(g)[:240]}")
                rep.ob(f"{key}/returns-solved", ok and cnt > 0, msg or "no returning path", where(s))
                rep.ob(f"{key}/non-convergence-raises", any(e.name == "RuntimeError" for _, e, _ in s.raised),
                       "no RuntimeError when the equation cannot be solved", where(s))
                for st, exc, wh in s.raised:
                    rep.ob(f"{key}/raise-kind/{exc.name}", exc.name == "RuntimeError",
                           f"a step that cannot be solved raises {exc.name}", str(wh))
                    rep.ob(f"{key}/raise-keeps-state", s.unchanged(st),
                           "the history changed although the step raised", str(wh))
                rep.count("returning_paths", cnt)
                rep.count("raising_paths", len(s.raised))
                rep.sample(f"{name} n={n}: {sorted(map(str, how))}")
                done += 1
    rep.need(f"{tag}implicit solver instances", done, 12 * len(sizes))
    return w


def where(s):
    return "; ".join(f"{i.where[0]}:{i.where[1]}" for i in s.loops.values())


def main(tier, root):
    rep = Report("C03", tier,
                 "Abstract interpretation of one skip() of every implicit solver together with the root finders it "
                 "calls (no summary), for scalar and small systems with an uninterpreted rhs; solver loops are "
                 "abstracted, inductive relations 'carried value = residual of carried iterate' are established on "
                 "entry and back edge, and every returning path condition must imply the convergence criterion for "
                 "the returned state (residual norm, or last secant correction, <= 1.48e-8).",
                 ["real arithmetic (a NaN residual is outside the model)",
                  "the secant finder's criterion is its last correction, not the residual, as documented"])
    sizes = (1, 2) if tier == "quick" else (1, 2, 3)
    return rep.finish([run(rep, root, sizes), run(rep, root, sizes, True)])
