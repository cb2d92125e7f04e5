"""C08: no solver goes beyond t_bound (or upto_t), nor evaluates the rhs outside the attempted step."""
from __future__ import annotations

from ..driver import Grid, Track, need_all, select, shards
from ..embedded import OPTIONS, SPEC
from ..harness import *
from ..nf import F, NF, and_, app, decide, entails, not_, or_, sat
from ..published import PAIRS, lincomb, stages
from ..report import Report
from ..values import gated_leaves
from .c07 import records, sn
from .c09 import arguments, label, placements, spec

TB = S("tb")


def trial_loop(w, mu):
    for i in w.itp.loopinfo.values():
        for loc, d in i.havoc.items():
            if NF.of(S(d["name"], d.get("hint"))) == mu:
                return i, loc
    return None


def shrinking(w, st, facts, mu, hb, back, name, tn, yn, o):
    """every retried step is at most the rejected one: the min/max structure decides it except for the
    power law, where norm >= 1 (the trial was rejected) and safety <= 1 bound the factor by 1"""
    pair = PAIRS[name]
    spec_ = w.itp.import_source(st, "reference_power_law", SPEC + '''
def law(norm, expo, h, safety):
    if norm == 0:
        return 0 * h
    return h * (safety / norm ** expo)
''')
    ks, y = stages(pair, tn, yn, mu)
    call = lambda f, *a: w.val(st, w.call(st, w.attr(st, spec_, f), *a))
    guard, st.guard = st.guard, True
    norms = [call("rms", A.vec(w.itp, st, mu * lincomb(E, ks)), A.vec(w.itp, st, y), A.vec(w.itp, st, yn),
                  o["atol"], o["rtol"]) for E in pair["E"]]
    norm = norms[0] if len(norms) == 1 else call("combined", *norms)
    law = sn(call("law", norm, Fraction(1, pair["q"] + 1), mu, o["safety_factor"]))
    acc = sn(w.itp.truth(st, call("accepted", norm)))
    st.guard = guard
    laws = [NF.of(x) for _, x in gated_leaves(law)]
    for gl, x in gated_leaves(sn(hb)):
        g = and_(facts, sn(back), gl)
        if not sat(g):
            continue
        lemma = [or_(acc, ge(mu, l)) for l in laws] + [or_(acc, gt(o["max_factor"] * mu, l)) for l in laws]
        if not entails(and_(g, *[sn(f) for f in lemma]), sn(ge(mu, NF.of(x)))) and not (NF.of(x) in laws and entails(g, not_(acc))):
            return x
    return None


from fractions import Fraction  # noqa: E402


def check_bound(rep, w, key, name, cls):
    emb = name in PAIRS
    o = {k: S(k, "pos") for k in OPTIONS if k != "max_step"} if emb else {}      # max_step: C05
    facts = True
    if emb:
        facts = and_(ge(o["rtol"], Fraction(100, 2 ** 52)), gt(1, o["min_factor"]), gt(o["max_factor"], 1),
                     ge(1, o["safety_factor"]))
    st = w.fork()
    st.guard = facts
    w.itp.loopinfo.clear()
    sol = make(w, st, cls, t_bound=TB, **o)
    hist = fill_history(w, st, sol, cls)
    tn, yn = hist[-1][0], hist[-1][1]
    st.guard = and_(st.guard, ge(TB, tn))
    n = len(hist)
    old = records(w, st, sol, n)
    w.itp.effects.clear()
    w.itp.sinks[:] = [[]]
    w.method(st, sol, "skip")
    raised, effects = list(w.itp.sinks[-1]), list(w.itp.effects)
    t_new = w.val(st, w.attr(st, sol, "t"))
    ok = True
    mu = None
    for gl, x in cases(st, t_new):
        x = NF.of(x)
        g = and_(st.guard, gl)
        mu = x - tn
        if emb:
            lp = trial_loop(w, mu)
            rep.ob(f"{key}/trial-loop", lp is not None, "the accepted step is not carried by a trial loop")
            if lp is None:
                continue
            info, loc = lp
            where = f"{info.where[0]}:{info.where[1]}"
            first = NF.of(w.itp.read_loc(info.entry, loc))
            rep.ob(f"{key}/first-trial", entails(and_(facts, info.entry.guard), ge(H, first)),
                   f"the first trial {first!r} is larger than the step checked against t_bound", where)
            rep.ob(f"{key}/bound-checked-first", entails(sn(info.entry.guard), ge(TB, tn + first)),
                   "a trial is made although it would end beyond t_bound", where)
            if info.back is not None:
                bad = shrinking(w, info.back.fork(), facts, mu, w.itp.read_loc(info.back, loc), info.back.guard,
                                name, tn, yn, o)
                rep.ob(f"{key}/retries-shrink", bad is None, f"a rejected trial can be retried with a larger step: {bad!r}"[:300],
                       where)
            ok = entails(and_(sn(g), ge(H, mu)), ge(TB, x))
        else:
            ok = entails(g, ge(TB, x))
        rep.ob(f"{key}/within-t_bound", ok, f"a step can end at {x.show(3)}, beyond t_bound")
        rep.count("returning_cases")
    rep.ob(f"{key}/bound-reached-raises", any(e.name == "RuntimeError" and sat(and_(rs.guard, gt(tn + H, TB)))
                                              for rs, e, _ in raised),
           "no RuntimeError when the step would end beyond t_bound")
    for rs, e, wh in raised:
        if not emb or entails(rs.guard, gt(tn + H, TB)):
            rep.ob(f"{key}/raise-only-at-bound", entails(rs.guard, gt(tn + H, TB)),
                   f"{e.name} although the step ends within t_bound", str(wh))
        rep.ob(f"{key}/raise-keeps-history", sn(tuple(records(w, rs, sol, n))) == sn(tuple(old)),
               f"history changed on a path that raises {e.name}", str(wh))
        rep.count("raising_cases")
    times = 0
    for T in rhs_times(effects):
        times += 1
        c = T - tn
        inside = c == NF({}) or any(q is not None and 0 <= q <= Fraction(10 ** 12 + 1, 10 ** 12)
                                    for q in (ratio(sn(c), sn(s)) for s in ([mu] if mu is not None else []) + [H]))
        rep.ob(f"{key}/rhs-inside-step", inside, f"the rhs is evaluated at {T.show(3)}, outside the attempted step")
    rep.ob(f"{key}/rhs-evaluated", times > 0, "no evaluation of the rhs seen")
    rep.count("rhs_evaluations", times)


def rhs_times(effects):
    return [NF.of(x) for e in effects if e.kind == "rhs" and e.data[1] for _, x in gated_leaves(e.data[1][0])]


def run(rep, root, deep, no_numba=False, shard=None):
    w = World(root, no_numba)
    tag = "nonumba:" if no_numba else ""
    done = 0
    for name in select(w, shard):
        key = tag + name
        with rep.unit(key, w, "step-returns"):
            check_bound(rep, w, key, name, w.solver_classes()[name])
        with rep.unit(f"{key}/drivers", w, "returns"):
            drivers(rep, w, key, name, deep)
            done += 1
        if name == "ForwardEuler":
            unbounded(rep, w, key, name)
    need_all(rep, w, tag, done, shard)
    return w


def drivers(rep, w, key, name, deep):
    """no driving method ends beyond t_bound or upto_t"""
    tracks = {}
    for tb, n, upto in placements(name, deep):
        if tb is None and upto is None:
            continue
        if tb not in tracks:
            tracks[tb] = Track(w, name, "auto", tb=Grid().place(tb) if tb else None)
        T = tracks[tb]
        limits = [T.g.place(p) for p in (tb, upto) if p is not None and p >= (0,)
                  and not (p is upto and p[0] < 0)]
        for meth in ("step", "skip"):
            out = T.drive(lambda st: w.method(st, T.sol, meth, **arguments(T, n, upto)))
            states = ([out.st] if out.ok else []) + [rs for rs, _, _ in out.raised]
            for st in states:
                for gl, x in cases(st, w.val(st, w.attr(st, T.sol, "t"))):
                    for lim in limits:
                        rep.ob(f"{key}/{meth}/within-limits", entails(and_(st.guard, gl), ge(lim, NF.of(x))),
                               f"{meth}{label(n, upto, tb)} ends at {NF.of(x).show(3)}")
            rep.count("driver_calls")
    for tb in ((1, None), (1, 0)):
        T = tracks.get(tb) or Track(w, name, "auto", tb=Grid().place(tb))
        for P in (tb, (1, None), (0, 1)):
            out = T.drive(lambda st: w.method(st, T.sol, "run", T.g.place(P)))
            states = ([out.st] if out.ok else []) + [rs for rs, _, _ in out.raised]
            for st in states:
                for gl, x in cases(st, w.val(st, w.attr(st, T.sol, "t"))):
                    rep.ob(f"{key}/run/within-t_bound", entails(and_(st.guard, gl), ge(T.g.place(tb), NF.of(x))),
                           f"run ends at {NF.of(x).show(3)}, beyond t_bound")
            rep.count("driver_calls")


def unbounded(rep, w, key, name):
    """any number of steps: 't within the limit' is kept by every iteration of every driving loop"""
    cls = w.solver_classes()[name]
    for what, kw, lim in (("n", {"n": S("n", "pos")}, TB), ("upto_t", {"upto_t": S("T")}, S("T")),
                          ("n+upto_t", {"n": S("n", "pos"), "upto_t": S("T")}, S("T"))):
        for meth in ("skip", "step"):
            with rep.unit(f"{key}/{meth}/any-number/{what}", w):
                st = w.fork()
                w.itp.loopinfo.clear()
                sol = make(w, st, cls, t_bound=TB)
                st.guard = and_(ge(TB, S("t0")), ge(S("T"), S("t0")))
                try:
                    w.method(st, sol, meth, **kw)
                except Unsupported:
                    rep.count("loops_not_modelled")
                    continue
                loc = time_location(w, st, sol)
                for info in w.itp.loopinfo.values():
                    if loc is None or info.back is None or loc not in info.havoc:
                        continue
                    where = f"{info.where[0]}:{info.where[1]}"
                    ent = w.itp.read_loc(info.entry, loc)
                    head = w.itp.read_loc(info.head, loc)
                    for gl, x in gated_leaves(ent):
                        if sat(and_(info.entry.guard, gl)):
                            rep.ob(f"{key}/{meth}/any-number/{what}/entry",
                                   entails(and_(info.entry.guard, gl), ge(lim, NF.of(x))),
                                   f"the loop is entered at {NF.of(x).show(3)}", where)
                    within = and_(*[or_(not_(gl), ge(lim, NF.of(x))) for gl, x in gated_leaves(head)])
                    for gl, x in gated_leaves(w.itp.read_loc(info.back, loc)):
                        g = and_(info.back.guard, gl, within)
                        if sat(g):
                            rep.ob(f"{key}/{meth}/any-number/{what}/iteration", entails(g, ge(lim, NF.of(x))),
                                   f"an iteration can end at {NF.of(x).show(3)}, beyond {lim!r}", where)
                    rep.count("driving_loops")


def time_location(w, st, sol):
    """where the current time is stored: the location of the last element of the time history"""
    cache = w.attr(st, sol, "cache")
    ts = w.attr(st, cache, "ts")
    if not isinstance(ts, Arr):
        return None
    n = ts.shape[0]
    base = getattr(ts, "sid", None) or getattr(ts, "store", None) or getattr(ts, "eid", None)
    return (base, n - 1) if base is not None else None


def main(tier, root):
    rep = Report("C08", tier,
                 "Abstract interpretation of one skip() of every solver with a symbolic t_bound: every returning path "
                 "condition must entail t_new <= t_bound (variable-step solvers: through the trial-loop invariant that "
                 "retried steps never grow), every raising path leaves the history alone, and every rhs evaluation lies "
                 "within the attempted step; step/skip/run with symbolically placed limits, and loop invariants for any number of steps.",
                 ["real arithmetic", "safety_factor <= 1, min_factor < 1 < max_factor"])
    return rep.finish(rep.parallel(shards(run, root, tier == "thorough")))
