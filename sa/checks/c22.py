"""C22: options take effect as given, have the documented defaults, and unusable ones are refused."""
from __future__ import annotations

import signal

from ..driver import *
from ..embedded import DEFAULTS, EPS100, Embedded, INF, OPTIONS, same_values
from ..nf import or_, sat, subst, entails
from ..published_names import NAMES, multistep
from ..report import Report
from ..values import Phi, Unsupported, gated_leaves, mk_phi
from .c04 import accept_rules
from .c05 import controller_rules

ORDER_Q = {n: p["q"] for n, p in PAIRS.items()}


def attempt(w, st, fn):
    ok, v, raised, _ = w.capture(st, fn)
    return (v if ok else None), [e.name for s, e, _ in raised if sat(s.guard)]


def start(w, st, cls, **kw):
    return w.call(st, cls, opaque_fn("f"), S("t0"), A.vec(w.itp, st, Vv("y0")), **kw)


def documented(k):
    """a default as the caller would write it"""
    v = DEFAULTS[k]
    return v if v == INF else NF.of(Fraction(v.const_val() if isinstance(v, NF) else v))


def summary(e):
    """the trial loop: (states by outcome, location of the step size)"""
    lp = e.loop()
    if lp is None:
        return None
    info, loc, _ = lp
    return {"accepted": [(x.guard, e.w.val(e.step.st, e.w.attr(e.step.st, e.step.sol, "h"))) for x in info.exits],
            "retried": [(info.back.guard, e.w.itp.read_loc(info.back, loc))] if info.back is not None else [],
            "refused": [(x.guard, None) for x, _, _ in e.step.raised]}, f"{info.where[0]}:{info.where[1]}"


def compare(rep, key, what, e, explicit):
    """both runs decide every trial alike and continue with the same step"""
    a, b = summary(e), summary(explicit)
    rep.ob(f"{key}/trial-loop", a is not None and b is not None, f"{what}: rejected trials are not retried")
    if a is None or b is None:
        return
    (a, where), (b, _) = a, b
    mp = {next(iter(explicit.mu.atoms())): e.mu}
    for outcome in a:
        theirs = b[outcome]
        if explicit.mu != e.mu:
            theirs = [(subst(g, mp), None if h is None else map_value(h, mp)) for g, h in theirs]
        if a[outcome] == theirs:
            rep.ob(f"{key}/effective-options", True)
        else:
            same_decision(rep, key, what, outcome, e.facts, a[outcome], theirs, where)
        rep.count("outcomes_compared", len(theirs))


def same_decision(rep, key, what, outcome, facts, mine, theirs, where):
    """the normal forms differ: compare them case by case"""
    with limit(20):
        for x, y in ((mine, theirs), (theirs, mine)):
            for g, _ in x:
                rep.ob(f"{key}/effective-options", entails(and_(facts, g), or_(*[g2 for g2, _ in y])),
                       f"{what}: a trial is {outcome} that the documented defaults decide otherwise", where)
        for ga, ha in mine:
            for gb, hb in theirs:
                bad = same_values(ha, hb, and_(facts, ga, gb))[1] if ha is not None and hb is not None else []
                rep.ob(f"{key}/effective-options", not bad, f"{what}: the next step of a trial that is {outcome} is " + (
                    f"{bad[0][1]!r} instead of {bad[0][2]!r}"[:300] if bad else ""), where)


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*_):
            raise Unsupported("the comparison takes too long")
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.alarm(self.seconds)

    def __exit__(self, *_):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def map_value(v, mp):
    if isinstance(v, Phi):
        return mk_phi(subst(v.cond, mp), map_value(v.a, mp), map_value(v.b, mp))
    return subst(NF.of(v), mp)


def variable(rep, w, tag, name, deep):
    """each option alone, none and all: the step follows the rules with exactly these values"""
    cls, key = w.solver_classes()[name], tag + name
    sym = {k: S(k, "pos") for k in OPTIONS}
    with rep.unit(f"{key}/general", w, "returns"):
        general = Embedded(w, cls, name)
        sub = Report(rep.pid, rep.tier, "")
        accept_rules(sub, key, general)
        controller_rules(sub, key, general)
        for k, m, where in sub.violations:
            rep.ob(f"{key}/options", False, f"all options given: {m}", where)
        rep.ob(f"{key}/options", not sub.violations, "all options given")
        rep.count("rules_compared", len(sub.obligations))
    sets = [()] + [(k,) for k in OPTIONS]
    if deep:
        sets += [(a, b) for i, a in enumerate(OPTIONS) for b in OPTIONS[i + 1:]]
    for given in sets:
        with rep.unit(f"{key}/{given}", w, "returns"):
            values = {k: documented(k) for k in OPTIONS if k not in given}
            mine = {k: sym[k] for k in given}
            compare(rep, key, f"given options: {', '.join(given) or 'none'}", Embedded(w, cls, name, mine, values),
                    Embedded(w, cls, name, {**mine, **values}, values))
            rep.count("option_sets")
    for r, eff in ((NF({}), EPS100), (Fraction(1, 10 ** 15), EPS100), (EPS100, EPS100)):
        with rep.unit(f"{key}/rtol floor", w, "returns"):
            run_ = lambda x: Embedded(w, cls, name, {**sym, "rtol": NF.of(x)}, {"rtol": NF.of(eff)})
            compare(rep, key, f"rtol = {float(NF.of(r).const_val()):.2g}", run_(r), run_(eff))
            rep.count("option_sets")
    # ------------------------------------------------------------------ the first step
    args = {}
    for given in (False, True):
        for form in (("number", "array") if given else ("absent", "None")):
            with rep.unit(f"{key}/first-step", w, "returns"):
                st = w.fork()
                o = {k: S(k, "pos") for k in OPTIONS}
                st.guard = and_(ge(o["rtol"], EPS100), ge(o["max_step"], H))
                kw = dict(o)
                if given:
                    kw["first_step"] = H if form == "number" else A.alloc(w.itp, st, [H], ())
                elif form == "None":
                    kw["first_step"] = None
                sol, live = attempt(w, st, lambda s: start(w, s, cls, **kw))
                rep.ob(f"{key}/first-step", sol is not None and not live, f"first_step {form}: construction raises {live}")
                if sol is None:
                    continue
                chosen = [x for x in w.itp.effects if x.kind == "select_initial_step"]
                rep.ob(f"{key}/first-step-selection", len(chosen) == (0 if given else 1),
                       f"first_step {form}: the first step is selected {len(chosen)} times")
                if chosen:
                    names = ("fun", "t0", "y0", "f0", "direction", "order", "rtol", "atol")
                    ts = list(chosen[0].data[0])
                    kws = {x[0]: x[1] for x in ts if isinstance(x, tuple) and len(x) == 2 and x[0] in names}
                    got = dict(zip(names, [x for x in ts if not (isinstance(x, tuple) and len(x) == 2 and x[0] in names)]), **kws)
                    want = {"t0": S("t0"), "y0": Vv("y0"), "f0": NF.of(app("f", S("t0"), Vv("y0"), kind="v")),
                            "order": NF.const(ORDER_Q[name]), "rtol": o["rtol"], "atol": o["atol"]}
                    for k, v in want.items():
                        rep.ob(f"{key}/first-step-selection", k in got and number(got[k]) and NF.of(got[k]) == NF.of(v),
                               f"the first step is selected with {k} = {got.get(k)!r}, not {v!r}")
                    d = got.get("direction")
                    rep.ob(f"{key}/first-step-selection", number(d) and NF.of(d).is_const() and NF.of(d).const_val() > 0,
                           f"the first step is selected for direction {d!r}")
                h = w.val(st, w.attr(st, sol, "h"))
                args[form] = h
                if form == "array":
                    w.itp.setitem(st, kw["first_step"], (), S("other", "pos"))
                    rep.ob(f"{key}/first-step-kept", w.val(st, w.attr(st, sol, "h")) == h,
                           "the solver steps with the caller's array: changing it changes the step size, and steps change it")
        if given:
            rep.ob(f"{key}/first-step", args.get("number") == args.get("array"), "first_step given as 0-d array differs from the number")
        else:
            rep.ob(f"{key}/first-step", args.get("absent") == args.get("None"), "first_step=None differs from no first_step")
    # ------------------------------------------------------------------- refused values
    neg = lambda n: -S(n, "pos")
    for what, kw in (("max_step = 0", {"max_step": NF({})}), ("max_step < 0", {"max_step": neg("m")}), ("atol < 0", {"atol": neg("m")}),
                     ("max_step < 0 with first_step", {"max_step": neg("m"), "first_step": H}),
                     ("atol < 0 with first_step", {"atol": neg("m"), "first_step": H})):
        with rep.unit(f"{key}/refused", w, "returns"):
            st = w.fork()
            sol, live = attempt(w, st, lambda s: start(w, s, cls, **kw))
            rep.ob(f"{key}/refused", sol is None and set(live) == {"ValueError"},
                   f"{what}: " + (f"raises {live}" if sol is None else "accepted") + ", not ValueError")
    with rep.unit(f"{key}/accepted", w, "returns"):
        for what, kw in (("atol = 0", {"atol": NF({})}), ("any positive max_step", {"max_step": S("m", "pos")})):
            st = w.fork()
            sol, live = attempt(w, st, lambda s: start(w, s, cls, **kw))
            rep.ob(f"{key}/accepted", sol is not None and not live, f"{what}: construction raises {live}")


def number(v):
    return isinstance(v, (NF, int, Fraction)) and not isinstance(v, bool)


def fixed_step(rep, w, tag, name):
    cls, key = w.solver_classes()[name], tag + name
    more = {"first_stepper_cls": None} if multistep(name) else {}
    t = lambda st, sol: w.val(st, w.attr(st, sol, "t"))
    for what, h, want in (("a number", H, H), ("0-d array", None, H), ("default", "absent", NF.const(1)), ("None", "None", NF.const(1)),
                          ("an integer", 2, NF.const(2))):
        with rep.unit(f"{key}/h", w, "returns"):
            st = w.fork()
            kw = dict(more)
            arr = None
            if h is None:
                arr = kw["h"] = A.alloc(w.itp, st, [H], ())
            elif h != "absent":
                kw["h"] = None if h == "None" else h
            sol, live = attempt(w, st, lambda s: start(w, s, cls, **kw))
            rep.ob(f"{key}/h", sol is not None and not live, f"h {what}: construction raises {live}")
            if sol is None:
                continue
            if arr is not None:
                s2 = st.fork()
                w.itp.setitem(s2, arr, (), S("other", "pos"))
                w.method(s2, sol, "skip")
                rep.ob(f"{key}/h-kept", same(t(s2, sol), S("t0") + H), "changing the array given as h changes the steps")
            for k in (1, 2):
                w.method(st, sol, "skip")
                rep.ob(f"{key}/h", same(t(st, sol), S("t0") + want.scale(k)),
                       f"h {what}: after {k} steps the solver is at {t(st, sol)!r}, not t0 + {k}*{want!r}")
            w.method(st, sol, "step", n=2)
            rep.ob(f"{key}/h", same(t(st, sol), S("t0") + want.scale(4)), f"h {what}: the step size changes between calls")
            if arr is not None:
                rep.ob(f"{key}/h-array", w.val(st, w.itp.getitem(st, arr, ())) == H, "the array given as h is modified")
            rep.count("step_sizes")


def unknown(rep, w, tag, name):
    cls, key = w.solver_classes()[name], tag + name
    var = name in PAIRS
    bad = ["tol", "max_steps", "hmax", "stepsize"]
    bad += ["first_step", "atol", "rtol", "max_step", "min_step", "safety_factor", "min_factor", "max_factor"] if not var else []
    bad += ["first_stepper_cls"] if not multistep(name) else []
    for k in bad:
        with rep.unit(f"{key}/unknown", w, "returns"):
            st = w.fork()
            kw = {k: H}
            if multistep(name):
                kw.setdefault("first_stepper_cls", None)
            sol, live = attempt(w, st, lambda s: start(w, s, cls, **kw))
            rep.ob(f"{key}/unknown", sol is None and set(live) == {"TypeError"},
                   f"the option {k}, which {name} does not have, " + ("is ignored" if sol is not None else f"raises {live}, not TypeError"))
            rep.count("unknown_options")


def run(rep, root, deep, no_numba=False, part=0):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    pairs = list(PAIRS)
    names = [n for n in NAMES if n in w.solver_classes()]
    rep.need(f"{tag}solvers", len(names), 26)
    if part < 3:
        variable(rep, w, tag, pairs[part], deep)
        return w
    for n in names:
        unknown(rep, w, tag, n)
        if n not in PAIRS:
            fixed_step(rep, w, tag, n)
    return w


def main(tier, root):
    rep = Report("C22", tier,
                 "Abstract interpretation of construction and steps with every option absent, alone, and together with all others: the trial loop "
                 "of each variable-step solver is compared with the reference acceptance rule and controller evaluated with the options "
                 "given and the documented defaults of the others; steps of fixed-step solvers with the forms of h; refused values and "
                 "unknown options must raise on every path.",
                 ["real arithmetic; options within their documented ranges", "SciPy's select_initial_step is uninterpreted"])
    deep = tier == "thorough"
    return rep.finish(rep.parallel([(run, (root, deep, nn, i)) for nn in (False, True) for i in range(4)]))
