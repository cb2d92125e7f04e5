"""The solvers the package documents, with what their names promise (independent of /repo)."""
from __future__ import annotations

from .published import PAIRS

MULTISTEP = {f"{fam}{k}": (fam, k) for fam, top in (("AdamsBashforth", 5), ("AdamsMoulton", 5), ("BDF", 6))
             for k in range(1, top + 1)}
EULER = ("ForwardEuler", "BackwardEuler")
RUNGE_KUTTA = ("Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8", *PAIRS)
NAMES = sorted([*MULTISTEP, *EULER, *RUNGE_KUTTA])
ALIASES = {"Euler": "ForwardEuler"}
GROUPS = {"Adams-Bashforth": [n for n in MULTISTEP if n.startswith("AdamsB")],
          "Adams-Moulton": [n for n in MULTISTEP if n.startswith("AdamsM")],
          "BDF": [n for n in MULTISTEP if n.startswith("BDF")],
          "Euler": list(EULER), "Runge-Kutta": list(RUNGE_KUTTA)}


def implicit(name):
    return name.startswith(("AdamsMoulton", "BDF", "Backward"))


def fixed(name):
    return name not in PAIRS


def multistep(name):
    return name not in RUNGE_KUTTA
