"""Rooted trees and Runge-Kutta order conditions with exact rationals."""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache


@lru_cache(None)
def trees(order):
    """rooted trees with `order` vertices, as sorted tuples of subtrees"""
    if order == 1:
        return ((),)
    out = set()

    def parts(rest, most, acc):
        if rest == 0:
            out.add(tuple(sorted(acc)))
            return
        for k in range(min(rest, most), 0, -1):
            for t in trees(k):
                parts(rest - k, k, acc + [t])
    parts(order - 1, order - 1, [])
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


@lru_cache(None)
def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def stage_weights(A, t, memo):
    """[elementary weight of t at each stage]: product over subtrees of A @ weights(subtree)"""
    if t in memo:
        return memo[t]
    n = len(A)
    w = [Fraction(1)] * n
    for s in t:
        u = stage_weights(A, s, memo)
        for i in range(n):
            w[i] *= sum((A[i][j] * u[j] for j in range(n) if A[i][j]), Fraction(0))
    memo[t] = w
    return w


def order_defects(A, b, p):
    """[(tree, defect)] of all order conditions up to order p"""
    memo = {}
    out = []
    for q in range(1, p + 1):
        for t in trees(q):
            w = stage_weights(A, t, memo)
            out.append((t, sum((bi * wi for bi, wi in zip(b, w)), Fraction(0)) - Fraction(1, gamma(t))))
    return out


def dense_defects(A, polys, p):
    """continuous order conditions: sum_i b_i(theta) phi_i(t) = theta^|t| / gamma(t) as polynomials;
    polys[i] = {power: coefficient}.  -> [(tree, largest coefficient defect)]"""
    memo = {}
    out = []
    for q in range(1, p + 1):
        for t in trees(q):
            w = stage_weights(A, t, memo)
            acc = {q: -Fraction(1, gamma(t))}
            for bi, wi in zip(polys, w):
                for k, c in bi.items():
                    acc[k] = acc.get(k, Fraction(0)) + c * wi
            out.append((t, max(abs(c) for c in acc.values())))
    return out
