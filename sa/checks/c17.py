"""C17: solvers are found by name, alias and group in any case, and filters select exactly."""
from __future__ import annotations

import itertools

from ..harness import *
from ..published_names import ALIASES, GROUPS, NAMES, multistep
from ..report import Report
from ..values import Cls
from ..nf import sat

OTHERS = ["", " ", "nope", "RungeKutta", "RungeKutta5", "Runge-Kutta", "AdamsBashforth6", "AdamsMoulton0", "BDF7", "bdf 1",
          "ForwardEuler ", "_ForwardEuler", "Forward_Euler", "Solver", "Multistep", "ERK", "FSAL", "BDF", "Heun", "dop"]

USER = '''
from nbkode.multistep.bdf import BDF2
from nbkode.runge_kutta.explicit import RungeKutta4, RungeKutta45

class MyBDF(BDF2):
    ALIASES = ("Mine", "MyOwn")

class Ours(RungeKutta4):
    GROUP = "House"

class ours_too(RungeKutta45):
    GROUP = "HOUSE"

class Hidden(RungeKutta4, abstract=True):
    GROUP = "Cellar"
'''
TAKEN = {"a name": "from nbkode.multistep.bdf import BDF2\nclass RUNGEKUTTA4(BDF2):\n    pass\n",
         "the same name": "from nbkode.multistep.bdf import BDF2\nclass BDF2(BDF2):\n    pass\n",
         "an alias": "from nbkode.multistep.bdf import BDF2\nclass EuleR(BDF2):\n    pass\n",
         "a name as alias": "from nbkode.multistep.bdf import BDF2\nclass Fresh(BDF2):\n    ALIASES = ('other', 'rungekutta23')\n"}


def spellings(n):
    alt = "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(n))
    return sorted({n, n.lower(), n.upper(), n.swapcase(), n.title(), alt})


class Registry:
    def __init__(self, rep, w, st, tag):
        self.rep, self.w, self.st, self.tag = rep, w, st, tag

    def call(self, name, *a, **k):
        """('ok', value) or ('raises', exception name) of a call of a public function, on a fork"""
        w, st = self.w, self.st.fork()
        ok, v, raised, _ = w.capture(st, lambda s: w.call(s, w.attr(s, w.nb, name), *a, **k))
        live = [e.name for s, e, _ in raised if sat(s.guard)]
        if ok and not live:
            return "ok", v, st
        return ("raises", live[0] if not ok else "?", st)

    def attribute(self, name):
        w, st = self.w, self.st.fork()
        ok, v, raised, _ = w.capture(st, lambda s: w.itp.getattr(s, w.nb, name))
        live = [e.name for s, e, _ in raised if sat(s.guard)]
        return ("ok", v, st) if ok and not live else ("raises", live[0] if not ok else "?", st)

    def classes(self, *groups, **filters):
        kind, v, st = self.call("get_solvers", *groups, **filters)
        if kind != "ok":
            return v
        return list(self.w.itp.iter_items(st, v))


def show(cs):
    return cs if isinstance(cs, str) else [getattr(c, "name", repr(c)) for c in cs]


def is_multistep(c):
    return next((multistep(x.name) for x in c.mro if x.name in NAMES), None)


def flag(w, st, c, what):
    return w.const(st, c, what)


def names(R, table, aliases):
    rep, w = R.rep, R.w
    for n in table:
        for s in spellings(n):
            kind, c, _ = R.call("get_solver", s)
            rep.ob(f"{R.tag}by-name", kind == "ok" and isinstance(c, Cls) and c.name == n,
                   f"get_solver({s!r}) " + (f"is {c!r}" if kind == "ok" else f"raises {c}") + f", not {n}")
            kind, a, _ = R.attribute(s)
            rep.ob(f"{R.tag}as-attribute", kind == "ok" and isinstance(a, Cls) and a is c,
                   f"nbkode.{s} " + (f"is {a!r}" if kind == "ok" else f"raises {a}") + f", not {n}")
            rep.count("names_looked_up", 2)
    for n, target in aliases.items():
        for s in spellings(n):
            kind, c, _ = R.call("get_solver", s)
            rep.ob(f"{R.tag}by-alias", kind == "ok" and isinstance(c, Cls) and c.name == target,
                   f"get_solver({s!r}) " + (f"is {c!r}" if kind == "ok" else f"raises {c}") + f", not {target}")
            rep.count("names_looked_up")


def groups(R, table):
    """get_groups, get_solvers of every group, sets of groups and filter combinations"""
    rep, w, st = R.rep, R.w, R.st
    kind, v, s = R.call("get_groups")
    got = [x for x in w.itp.iter_items(s, v)] if kind == "ok" else v
    rep.ob(f"{R.tag}groups", got == sorted(table), f"get_groups() gives {got}, not {sorted(table)}")
    every = R.classes()
    rep.ob(f"{R.tag}all", not isinstance(every, str) and sorted(show(every)) == sorted(n for g in table.values() for n in g),
           f"get_solvers() gives {show(every)}, not every solver once")
    flags = {c: (flag(w, st, c, "IMPLICIT"), flag(w, st, c, "FIXED_STEP"), not is_multistep(c), is_multistep(c))
             for c in every if isinstance(c, Cls)}
    for c, fl in flags.items():
        rep.ob(f"{R.tag}flags", all(isinstance(x, bool) for x in fl), f"flags of {c.name} are not booleans: {fl}")
    for g, members in table.items():
        for s in spellings(g):
            got = R.classes(s)
            rep.ob(f"{R.tag}group", not isinstance(got, str) and sorted(show(got)) == sorted(members),
                   f"get_solvers({s!r}) gives {show(got)}, not {sorted(members)}")
            rep.count("queries")
    combos = [()] + [(g,) for g in table] + list(itertools.combinations(table, 2)) + [tuple(table)]
    for gs in combos:
        for f in itertools.product((None, True, False), repeat=4):
            kw = {k: x for k, x in zip(("implicit", "fixed_step", "runge_kutta", "multistep"), f) if x is not None}
            if len(gs) > 1 and len(kw) > 1:
                continue
            got = R.classes(*gs, **kw)
            members = [n for g in (gs or table) for n in table[g]]
            want = sorted(c.name for c, fl in flags.items() if c.name in members and
                          all(x is None or x == y for x, y in zip(f, fl)))
            label = ", ".join([repr(g) for g in gs] + [f"{k}={x}" for k, x in kw.items()])
            rep.ob(f"{R.tag}filter", not isinstance(got, str) and sorted(show(got)) == want,
                   f"get_solvers({label}) gives {show(got)}, not {want}")
            rep.count("queries")
    for s in ("", "nope", "Runge", "RungeKutta4", "ODE"):
        for a in ((s,), ("Euler", s), (s, "BDF")):
            got = R.classes(*a)
            rep.ob(f"{R.tag}unknown-group", got == "KeyError", f"get_solvers{a} " + (
                f"raises {got}" if isinstance(got, str) else f"gives {show(got)}") + ", not KeyError")


def run(rep, root, no_numba=False):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    with rep.unit(tag + "names", w, "returns"):
        R = Registry(rep, w, w.fork(), tag)
        names(R, NAMES, ALIASES)
        rep.need(f"{tag}names", len(NAMES), 26)
    with rep.unit(tag + "other names", w, "returns"):
        for s in OTHERS:
            kind, v, _ = R.call("get_solver", s)
            rep.ob(f"{tag}unknown-name", (kind, v) == ("raises", "ValueError"),
                   f"get_solver({s!r}) " + (f"is {v!r}" if kind == "ok" else f"raises {v}") + ", not ValueError")
            if s.isidentifier() and not s.startswith("_"):
                kind, v, _ = R.attribute(s)
                rep.ob(f"{tag}unknown-attribute", (kind, v) == ("raises", "AttributeError"),
                       f"nbkode.{s} " + (f"is {v!r}" if kind == "ok" else f"raises {v}") + ", not AttributeError")
    with rep.unit(tag + "groups", w, "returns"):
        groups(R, GROUPS)
    with rep.unit(tag + "user-defined", w, "returns"):
        st = w.fork()
        w.itp.import_source(st, "user_solvers", USER)
        U = Registry(rep, w, st, tag + "user:")
        names(U, NAMES + ["MyBDF", "Ours", "ours_too"], {**ALIASES, "Mine": "MyBDF", "MyOwn": "MyBDF"})
        groups(U, {**GROUPS, "BDF": GROUPS["BDF"] + ["MyBDF"], "House": ["Ours", "ours_too"]})
        kind, v, _ = U.call("get_solver", "Hidden")
        rep.ob(f"{tag}user:abstract", (kind, v) == ("raises", "ValueError"), "a class defined as abstract is registered")
    with rep.unit(tag + "taken names", w, "returns"):
        for what, src in TAKEN.items():
            st = w.fork()
            ok, v, raised, _ = w.capture(st, lambda s: w.itp.import_source(s, "user_taken", src))
            rep.ob(f"{tag}taken", not ok, f"a solver with {what} that is taken is registered: {src.splitlines()[1]}")
            rep.count("registrations")
    return w


def main(tier, root):
    rep = Report("C17", tier,
                 "Abstract interpretation of the package's import and of get_solver, attribute access, get_groups and get_solvers "
                 "for every documented name and alias in several spellings, near misses, all groups, pairs of groups and filter "
                 "combinations, also after user-defined solvers were registered; results are compared with the documented table.",
                 ["names and groups outside the table are represented by near misses"])
    return rep.finish(rep.parallel([(run, (root, nn)) for nn in (False, True)]))
