"""Published coefficients of the embedded pairs (independent of /repo).

Bogacki & Shampine 1989; Dormand & Prince 1980 (with Shampine's 1986 dense output); Hairer, Norsett &
Wanner, DOP853 (decimals as distributed with the Fortran code and SciPy)."""
from __future__ import annotations

import json
import os
from fractions import Fraction as Q

from .nf import NF, app


def _q(rows):
    return [[Q(x) for x in r] for r in rows]


RK23 = dict(
    C=[Q(0), Q(1, 2), Q(3, 4)],
    A=_q([[], ["1/2"], [0, "3/4"]]),
    B=[Q(2, 9), Q(1, 3), Q(4, 9)],
    E=[[Q(5, 72), Q(-1, 12), Q(-1, 9), Q(1, 8)]],
    q=2, order=3, dense=3)

RK45 = dict(
    C=[Q(0), Q(1, 5), Q(3, 10), Q(4, 5), Q(8, 9), Q(1)],
    A=_q([[], ["1/5"], ["3/40", "9/40"], ["44/45", "-56/15", "32/9"],
          ["19372/6561", "-25360/2187", "64448/6561", "-212/729"],
          ["9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656"]]),
    B=[Q(35, 384), Q(0), Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84)],
    E=[[Q(-71, 57600), Q(0), Q(71, 16695), Q(-71, 1920), Q(17253, 339200), Q(-22, 525), Q(1, 40)]],
    q=4, order=5, dense=4)

with open(os.path.join(os.path.dirname(__file__), "data", "dop853.json")) as _fh:
    _d = json.load(_fh)["DOP853"]
_n = _d["n_stages"]
DOP853 = dict(
    C=[Q(x) for x in _d["C"][:_n]],
    A=[[Q(x) for x in _d["A"][i][:i]] for i in range(_n)],
    B=[Q(x) for x in _d["B"]],
    E=[[Q(x) for x in _d["E5"]], [Q(x) for x in _d["E3"]]],
    q=7, order=8, dense=7,
    A_extra=[[Q(x) for x in _d["A"][i][:i]] for i in range(_n + 1, len(_d["A"]))],
    C_extra=[Q(x) for x in _d["C"][_n + 1:]],
    D=[[Q(x) for x in r] for r in _d["D"]])

PAIRS = {"RungeKutta23": RK23, "RungeKutta45": RK45, "DOP853": DOP853}


def lincomb(ws, ks):
    out = NF({})
    for w, k in zip(ws, ks):
        if w:
            out = out + k.scale(w)
    return out


def stages(p, tn, yn, mu, f="f"):
    """the stage derivatives (last one at the new point) and the new state"""
    ks = []
    for c, row in zip(p["C"], p["A"]):
        ks.append(NF.of(app(f, tn + mu.scale(c), yn + mu * lincomb(row, ks), kind="v")))
    y_new = yn + mu * lincomb(p["B"], ks)
    ks.append(NF.of(app(f, tn + mu, y_new, kind="v")))
    return ks, y_new
