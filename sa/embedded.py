"""One abstract step of the variable-step solvers and its reference controller."""
from __future__ import annotations

import itertools
from fractions import Fraction

from .harness import *
from .nf import F, NEG, NF, POS, ZERO, and_, app, cmp_, conj, decide, entails, not_, or_, sat
from .published import PAIRS, lincomb, stages
from .values import Phi, gated_leaves

OPTIONS = ("atol", "rtol", "min_factor", "max_factor", "safety_factor", "max_step", "min_step")

# the controller as documented (SciPy's, which the package states it reproduces), in the analysed language
SPEC = '''
import numpy as np

def rms(err, y_new, y_old, atol, rtol):
    scale = atol + rtol * np.maximum(np.abs(y_new), np.abs(y_old))
    return np.sqrt(np.mean((err / scale) ** 2))

def combined(n5, n3):
    if n5 == 0:
        return 0.0
    return n5 / np.sqrt(1 + (n3 / (10 * n5)) ** 2)

def factor(norm, expo, safety, minf, maxf):
    if norm == 0:
        return maxf
    return min(maxf, max(minf, safety / norm ** expo))

def update(norm, expo, h, safety, minf, maxf, max_step):
    return min(h * factor(norm, expo, safety, minf, maxf), max_step)

def accepted(norm):
    return norm < 1
'''


INF = float("inf")
EPS100 = Fraction(100, 2 ** 52)
DEFAULTS = {"atol": Fraction(1, 10 ** 6), "rtol": Fraction(1, 1000), "min_factor": Fraction(1, 5), "max_factor": NF.const(10),
            "safety_factor": Fraction(9, 10), "max_step": INF, "min_step": Fraction(1, 10 ** 15)}


class Embedded:
    """facts: what the constructor and the user's options guarantee; given: the options passed and the
    values they have to take effect with, by default every option, symbolic"""

    def __init__(self, w, cls, name, given=None, effective=None):
        self.w, self.name = w, name
        given = {k: S(k, "pos") for k in OPTIONS} if given is None else given
        self.o = o = {**DEFAULTS, **given, **(effective or {})}
        o = {k: v if v == INF else NF.of(v) for k, v in o.items()}
        self.o = o
        facts = self.facts = and_(*[ge(o["rtol"], EPS100)] if not (effective and "rtol" in effective) else [], gt(1, o["min_factor"]),
                                  gt(o["max_factor"], 1), *[ge(o["max_step"], H)] if o["max_step"] != INF else [])
        w.itp.loopcount = itertools.count(1000)  # number the loops of every run alike, to compare runs
        fork = w.fork

        def forked():
            st = fork()
            st.guard = facts
            return st
        w.fork = forked
        try:
            self.step = Step(w, cls, **given)
        finally:
            w.fork = fork
        s = self.step
        self.mu = s.mu()
        self.pair = PAIRS[name]
        self.ks, self.y_ref = stages(self.pair, s.tn, s.yn, self.mu)
        spec = w.itp.import_source(s.st, "reference_controller", SPEC)
        st = s.before.fork()
        for e in s.st.heap:
            if e not in st.heap:
                st.heap[e] = s.st.heap[e]
        st.guard = True
        call = lambda f, *a: w.val(st, w.call(st, w.attr(st, spec, f), *a))
        norms = [call("rms", A.vec(w.itp, st, self.mu * lincomb(E, self.ks)), A.vec(w.itp, st, self.y_ref),
                      A.vec(w.itp, st, s.yn), o["atol"], o["rtol"]) for E in self.pair["E"]]
        self.norm = norms[0] if len(norms) == 1 else call("combined", *norms)
        expo = Fraction(1, self.pair["q"] + 1)
        self.next_h = call("update", self.norm, expo, self.mu, o["safety_factor"], o["min_factor"],
                           o["max_factor"], o["max_step"])
        self.accept = w.itp.truth(st, call("accepted", self.norm))
        self.exact = False

    def loop(self):
        """the trial loop: the loop whose carried step size is the size of the accepted step"""
        for i in self.step.loops.values():
            for loc, d in i.havoc.items():
                if NF.of(S(d["name"], d.get("hint"))) == self.mu:
                    return i, loc, d
        return None


def sn(x):
    return snap(x, 12)


def differ(g, x, y):
    """can the two values differ where g holds?"""
    d = x - y
    if not d.t:
        return False
    return d.is_vec() or sat(and_(g, sn(cmp_(d, {NEG, POS}))))


def same_values(a, b, ctx=True):
    """[(guard, leaf a, leaf b)] where the two gated values differ under ctx"""
    bad = []
    n = 0
    for ga, x in gated_leaves(a):
        ga = and_(ctx, ga)
        if not sat(ga):
            continue
        for gb, y in gated_leaves(b):
            g = and_(ga, gb)
            if not sat(g):
                continue
            n += 1
            if differ(g, NF.of(x), NF.of(y)):
                bad.append((g, x, y))
    return n, bad
