"""Single source of properties.jsonl and MANIFEST.json: python3 meta/catalogue.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))


REAL = "Real arithmetic (rounding is outside the argument)."
AI = "abstract interpretation (gated value numbering) of the source"

prop("C01", "Each linear multistep solver takes the classical full-order formula",
     "One step of Adams-Bashforth k, Adams-Moulton k, BDF k, forward or backward Euler on a uniform history stores at "
     "t+h exactly the state given by the classical formula of that name (for implicit ones: a state solving it), with "
     "every weight applied to the past state or derivative of the matching age.",
     ["inputs", "histories"],
     "all right-hand sides, dimensions, step sizes, current times and contents of the history",
     "tests compare a few solvers on y'=-y within loose tolerances; a low-order or misordered weight still converges",
     ["nbkode/multistep/core.py", "nbkode/multistep/adams_bashforth.py", "nbkode/multistep/adams_moulton.py",
      "nbkode/multistep/bdf.py", "nbkode/euler.py"],
     [("coefficient vectors", "nbkode/multistep/*.py A, B, Bn, B1"), ("fixed step builders", "nbkode/multistep/core.py"),
      ("Euler steps", "nbkode/euler.py")],
     observe=["solver.skip(); solver.t, solver.y"],
     technique=AI + "; coefficient comparison with Lagrange-derived formulas",
     note="Holds for all rhs, histories, h and dimensions at once. Trusts the interpreter's numpy/numba models. " + REAL +
     " Implicit solvers: root finders are taken by contract here (C03 analyses them).")

prop("C02", "Each Runge-Kutta solver advances with a scheme of its documented order",
     "One step of every explicit Runge-Kutta solver, fixed or variable step, evaluates consistent stages (each stage "
     "time matches its weights, none depends on itself) and combines them so that every order condition up to the "
     "solver's order holds (2, 3, 3, 4, 4; 3, 5, 8 for the embedded pairs). The new time is the old one plus the step taken.",
     ["inputs", "histories"],
     "all right-hand sides, including non-autonomous and vector ones, all states, times and steps",
     "tests integrate one or two smooth problems within a tolerance; wrong stage times do not show on autonomous problems",
     ["nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/dop853_coefficients.py"],
     [("stage loops", "nbkode/runge_kutta/core.py"), ("tableaux A, B, C", "nbkode/runge_kutta/explicit.py")],
     observe=["solver.skip(); solver.t, solver.y"],
     technique=AI + "; tableau extraction and exact rooted-tree order conditions",
     note="All order conditions decided with exact rationals within 1e-11 for all rhs at once. " + REAL)

prop("C03", "An implicit step either solves its equation or raises and changes nothing",
     "When a step of an implicit solver returns, the stored new state meets the convergence criterion of its "
     "root finder for the solver's own implicit equation at the new time. When it cannot converge it raises "
     "RuntimeError, and the solver's time, state, derivative and history stay as before the step.",
     ["inputs", "histories"],
     "all right-hand sides, guesses, iteration counts and convergence behaviours",
     "tests only step well-behaved problems on which the iteration converges at once",
     ["nbkode/nbcompat/zeros.py", "nbkode/multistep/core.py", "nbkode/euler.py"],
     [("newton/secant iterations", "nbkode/nbcompat/zeros.py"), ("implicit step builders", "nbkode/multistep/core.py")],
     observe=["solver.skip() return or exception; solver.t, solver.y, solver.f"],
     technique=AI + "; inductive loop invariants over residual terms",
     note="Scalar and 2-dimensional systems (3 in the thorough tier) with uninterpreted rhs, unbounded iterations by "
     "loop abstraction. Criterion: residual norm <= 1.48e-8, or last secant correction for the secant finder. " + REAL)

prop("C04", "Variable-step solvers accept a trial exactly when its error is in tolerance",
     "RungeKutta23, RungeKutta45 and DOP853 accept a trial step exactly when the published embedded error estimate, in "
     "the weighted RMS norm with atol + rtol*max(|y_old|, |y_new|), is below 1, and then store the new point of that "
     "trial with the right-hand side evaluated there. Anything else is retried with another step or raises.",
     ["inputs", "histories"],
     "all right-hand sides, tolerances, states, steps and numbers of rejected trials",
     "tests compare final values on smooth problems where nearly every trial is accepted",
     ["nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/dop853_coefficients.py"],
     [("trial loop", "nbkode/runge_kutta/core.py"), ("error weights E, E3, E5", "nbkode/runge_kutta/explicit.py")],
     observe=["solver.skip(); solver.t, solver.y, solver.f"],
     technique=AI + "; entailment between path conditions and the reference acceptance rule",
     note="Path conditions of accept, retry and raise edges compared with the published rule, for any number of trials. " + REAL)

prop("C05", "Variable-step sizes follow the documented controller and its limits",
     "After a trial step h with error norm e the next step is min(max_step, h * clamp(safety_factor * e^(-1/(q+1)), "
     "min_factor, max_factor)), q being the order of the error estimate, after acceptance and after rejection alike; "
     "max_step also limits the first step. When a rejected trial would be repeated with a step below min_step, or one that cannot "
     "advance time, the solver raises RuntimeError instead of retrying.",
     ["inputs", "histories"],
     "all error norms, option values in their documented ranges and numbers of rejections",
     "tests never set max_step, min_step or the factors and never force a rejection",
     ["nbkode/runge_kutta/core.py", "nbkode/core.py"],
     [("controller", "nbkode/runge_kutta/core.py"), ("options", "nbkode/core.py VariableStep")],
     observe=["solver.skip(); solver.h; differences of solver.t"],
     technique=AI + "; gated comparison with a reference controller interpreted by the same engine",
     note="Case-by-case equality of gated normal forms and entailment of bounds, any number of trials. " + REAL)

prop("C06", "Interpolation in the recorded history is the solver's dense output",
     "Interpolating at any time within the recorded history reproduces the stored states at stored times and, between "
     "them, the cubic Hermite interpolant of the two surrounding points (fixed-step and multistep solvers) or the published continuous extension "
     "of the latest step (RungeKutta23 order 3, RungeKutta45 order 4, DOP853 order 7), whatever was interpolated or "
     "stepped before. A time outside the recorded history raises ValueError.",
     ["inputs", "histories"],
     "all right-hand sides, query times, history contents and earlier queries",
     "tests compare interpolated values with an exact solution within loose tolerances at a few times",
     ["nbkode/core.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py"],
     [("Hermite interpolation", "nbkode/core.py _interpolate"), ("dense output", "nbkode/runge_kutta/*.py")],
     observe=["solver.interpolate(t)", "solver.run(t)"],
     technique=AI + "; Hermite normal forms and continuous rooted-tree order conditions",
     note="All query positions in every history interval, exact polynomials; after a successful step. " + REAL)

exec(open(os.path.join(HERE, "meta", "more.py")).read()) if os.path.exists(os.path.join(HERE, "meta", "more.py")) else None


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in sorted(P, key=lambda p: p["id"]):
            built = os.path.exists(os.path.join(HERE, "sa", "checks", p["id"].lower() + ".py"))
            if not built and not p["na"]:
                continue
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                       "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                anchors["observe_at"] = list(p["observe"])
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]},
                                 "why_tests_cant": p["tests"], "anchors": anchors}) + "\n")
            if p["na"]:
                na.append({"property": p["id"], "reason": p["na"]})
            else:
                cmd = f"python3 -m sa.run {p['id']} --tier "
                checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                               "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                               "level": "other", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
                   "notes": "Static analysis only: /repo is parsed and abstractly interpreted, never imported or run. "
                            "Exit 2 means the analysis met a construct it does not model. known-findings.txt lists findings and repairs."},
                  fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
