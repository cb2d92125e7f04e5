DRV = ("Every placement of the symbolic limits and requests within 3 steps (more in the thorough tier), for all step sizes, "
       "times, states and (fixed-step solvers) right-hand sides; variable-step solvers with rhs constant in t and y. ")

prop("C07", "Every step appends exactly one consistent record to the history",
     "A step that returns moves the solver to a strictly later time, shifts the recorded history by exactly one record "
     "and appends the new time, state and the right-hand side evaluated at exactly that time and state; all older "
     "records stay as they were. A new solver's history holds its initial time, state and derivative, and a step that "
     "raises leaves the history as it was.",
     ["inputs", "histories"],
     "all solvers, right-hand sides, history contents and step sizes",
     "tests look at final times and states only, never at the recorded history or derivative",
     ["nbkode/buffer.py", "nbkode/core.py", "nbkode/multistep/core.py", "nbkode/runge_kutta/core.py",
      "nbkode/runge_kutta/explicit.py"],
     [("history buffer", "nbkode/buffer.py AlignedBuffer.push"), ("step functions", "nbkode/*/core.py _step")],
     state=[("history", "last times, states and derivatives", "nbkode/buffer.py")],
     observe=["solver.t, solver.y, solver.f, solver.cache"],
     technique=AI + "; record-by-record comparison of histories before and after",
     note="All rhs and histories at once; implicit solvers with root finders by contract (C03). " + REAL)

prop("C08", "Integration never goes beyond t_bound or upto_t",
     "No call of step, skip or run takes a step that ends beyond t_bound or beyond upto_t, however many steps are "
     "requested and however often a trial step is retried. A step evaluates the right-hand side only at "
     "times between the current time and the end of the attempted step, and a single step that would end beyond t_bound raises RuntimeError, "
     "leaving the solver as it was.",
     ["inputs", "histories"],
     "all solvers, right-hand sides, step sizes, bounds, and numbers of steps and retries",
     "tests use one bound with one step size; retried steps and stage times near the bound are never observed",
     ["nbkode/core.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/multistep/core.py"],
     [("bound test before a step", "nbkode/core.py __init_subclass__"), ("driving loops", "nbkode/core.py _steps, _nsteps, _skip, _nskip, _run_eval")],
     observe=["solver.t after any call; times passed to the right-hand side"],
     technique=AI + "; path conditions entail the bound, loop invariants for retries and driving loops",
     note="Any number of retries and (ForwardEuler) of driven steps by loop invariants. Assumes safety_factor <= 1, "
     "min_factor < 1 < max_factor. Selection of the first step is outside. " + REAL)

prop("C09", "step and skip take exactly the requested steps, or stop as documented",
     "step and skip called with n, upto_t, both or neither advance by exactly min(n, the number of steps that end at or "
     "before upto_t) steps (one step without arguments) and do nothing if upto_t is already past. Without upto_t they raise RuntimeError when t_bound "
     "prevents the n-th step, after having taken the steps that fit; upto_t beyond t_bound raises ValueError and changes nothing.",
     ["inputs", "histories"],
     "all solvers, step sizes, current states and all positions of upto_t and t_bound, including exactly at step times",
     "tests use one grid of round numbers; equality of limit and step time and combinations with t_bound are not tried",
     ["nbkode/core.py"],
     [("step, skip", "nbkode/core.py Solver.step, Solver.skip"), ("loops", "nbkode/core.py _steps, _nsteps, _skip, _nskip")],
     observe=["solver.step(...), solver.skip(...), solver.t, solver.y"],
     technique=AI + "; differential comparison with undriven steps", note=DRV + REAL)

prop("C10", "step returns exactly the points the solver went through",
     "step returns one time and one state per step taken, in order, equal to the solver's time and state after that "
     "step, and no others. It leaves the solver in the same state as skip called with the same arguments.",
     ["inputs", "histories"],
     "all solvers, step sizes, histories, n and upto_t",
     "tests compare rows between calls of the same method on one problem",
     ["nbkode/core.py"],
     [("recording loops", "nbkode/core.py _steps, _nsteps")],
     observe=["return value of solver.step(...)"],
     technique=AI + "; row-by-row comparison with undriven steps", note=DRV + REAL)

prop("C11", "run returns the solution at every requested time, in the requested order",
     "run returns the requested times in the requested order (unsorted and repeated times included), each paired with "
     "the solution interpolated at that time, and leaves the solver at the first step end that covers the latest request. Times that "
     "t_bound keeps the solver from reaching are left out with the others unaffected; a time before the recorded "
     "history or beyond t_bound raises ValueError and changes nothing.",
     ["inputs", "histories"],
     "all solvers, step sizes, histories, and all numbers, orders and positions of requested times and t_bound",
     "tests request a few sorted round times and compare with tolerances; unsorted requests are checked on one case",
     ["nbkode/core.py"],
     [("run", "nbkode/core.py run, run_events"), ("evaluation loop", "nbkode/core.py _run_eval")],
     observe=["solver.run(t), solver.t afterwards"],
     technique=AI + "; differential comparison with undriven steps and interpolations", note=DRV + REAL)

prop("C12", "Returned results are snapshots, independent of the solver and each other",
     "Arrays returned by step, run, run_events and interpolate keep their values whatever the solver, or the caller with the arrays it passed in, does later. Writing "
     "into them changes neither the solver's state and history, its further solution, nor the other returned arrays.",
     ["inputs", "histories"],
     "all solvers, all forms of step, run, run_events and interpolate, placements of requests, later steps and writes",
     "tests read results at once and never write into them or keep them across further steps",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/event_handler.py", "nbkode/runge_kutta/core.py",
      "nbkode/runge_kutta/explicit.py"],
     [("result arrays", "nbkode/core.py _steps, _nsteps, _run_eval, _run_eval_events, interpolate"),
      ("ring buffer that hands out views", "nbkode/buffer.py AlignedBuffer"),
      ("recorded events", "nbkode/event_handler.py Event.evaluate")],
     state=[("history", "memory that a returned view could alias", "nbkode/buffer.py")],
     observe=["return values of solver.step, run, run_events, interpolate"],
     technique=AI + "; alias analysis on an explicit heap of arrays and views",
     note="Aliasing follows the modelled view and copy rules of numpy. " + DRV + REAL)

prop("C13", "Arrays passed by the caller are neither modified nor kept",
     "A solver never writes into the y0, params or requested-times arrays it is given. Changing these arrays after the "
     "call does not change the solver's state, history or further solution, and two solvers built from the same arrays do not "
     "influence each other.",
     ["inputs", "histories"],
     "all solvers and first steppers, arrays, tuples or lists as params, all later uses of the arrays",
     "tests build solvers from fresh or shared arrays but never compare or change the arrays afterwards",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/multistep/core.py", "nbkode/event_handler.py"],
     [("initial condition", "nbkode/core.py Solver.__init__"), ("requests", "nbkode/core.py run_events")],
     observe=["the caller's y0, params and t arrays; solver.y after they change"],
     technique=AI + "; alias and effect analysis on an explicit heap of arrays and views",
     note="Aliasing follows the modelled view and copy rules of numpy. " + REAL)

EVT = ("Event functions are uninterpreted, their signs at step ends and the places of their roots are facts; "
       "up to 3 steps (4 in the thorough tier) and 3 events. Event functions that are zero at both ends of a step are not compared. ")

prop("C14", "run_events records each sign change of an event once, in its direction",
     "For each event function run_events returns, in its own list and in order, one occurrence for every step at whose "
     "ends the event has opposite signs or is zero at one of them, provided that the change agrees with the event's direction (rising if positive, "
     "falling if negative, whatever its magnitude; both if zero or absent). An occurrence at a step end is recorded once, and other steps record nothing.",
     ["inputs", "histories"],
     "all solvers, all sign sequences of any number of events, all directions, given alone or as list or tuple",
     "tests use three smooth events on one problem; zeros at step ends, fractional directions and event interplay are not tried",
     ["nbkode/event_handler.py", "nbkode/core.py"],
     [("triggering", "nbkode/event_handler.py Event.evaluate"), ("event attributes", "nbkode/event_handler.py build_handler"),
      ("driving loop", "nbkode/core.py _run_eval_events")],
     state=[("last time and value of each event", "compared with the new step end", "nbkode/event_handler.py Event")],
     observe=["t_events returned by solver.run_events"],
     technique=AI + "; sign facts at step ends against a specification of occurrences", note=EVT + REAL)

prop("C15", "Events are located on the solution, inside the step that shows them",
     "The time recorded for an event is an exact zero of event(t, solution(t)) or lies in a bracket of a sign change of it that "
     "has been narrowed at least 2^-30 times the step that shows the event. The state recorded with it is the "
     "solution at exactly that time, and no sign change makes the search fail.",
     ["inputs", "histories"],
     "all solvers, event functions of any scale with a sign change in a step, positions of the root",
     "tests compare a few well-scaled events with SciPy within tolerances",
     ["nbkode/event_handler.py", "nbkode/nbcompat/zeros.py", "nbkode/core.py"],
     [("root search", "nbkode/nbcompat/zeros.py bisect"), ("function searched", "nbkode/event_handler.py event_at_sol, Event.evaluate")],
     observe=["t_events and y_events returned by solver.run_events"],
     technique=AI + "; loop invariant of the bracketing search on an uninterpreted sign-changing function",
     note="Any number of iterations by loop invariant; narrowing to 2^-30 or 1e-9. " + REAL)

prop("C16", "A terminal event ends run_events there; other events do not affect it",
     "run_events stops at the earliest occurrence of an event whose terminal attribute is true (any true value): requested times before it are returned as without "
     "events, followed by the time and state of the occurrence if some request was not before it, and no event is reported after it. Non-terminal events, and "
     "terminal events that do not occur, change nothing in the returned times and states or in the solver's final state.",
     ["inputs", "histories"],
     "all solvers, events, directions, roots and requests in any order within and between steps, t_bound",
     "tests have one terminal event with requests far from it, never several in one step or requests between root and step end",
     ["nbkode/core.py", "nbkode/event_handler.py"],
     [("termination", "nbkode/core.py _run_eval_events"), ("earliest event", "nbkode/event_handler.py EventHandler.evaluate")],
     observe=["all results of solver.run_events, solver.t afterwards"],
     technique=AI + "; differential comparison with undriven steps and interpolations", note=EVT + DRV + REAL)

prop("C17", "Solvers are found by name, alias and group in any case; filters are exact",
     "get_solver, nbkode.<name> and get_solvers(group) find every documented solver, alias and group whatever the letter case, "
     "and only those; get_solvers with groups and filters returns exactly the solvers of these groups with all the flags asked for; "
     "a user's subclass is found the same way, an abstract one is not, and a taken name or alias is refused.",
     ["inputs", "configurations"],
     "all names, aliases and groups in any spelling, all combinations of filters, user-defined classes",
     "tests look up a few names in one spelling and do not combine filters or define solvers",
     ["nbkode/core.py", "nbkode/util.py", "nbkode/__init__.py"],
     [("registration", "nbkode/core.py Solver.__init_subclass__"), ("lookup", "nbkode/core.py get_solvers, get_solver"),
      ("case-insensitive mapping", "nbkode/util.py CaseInsensitiveDict")],
     observe=["nbkode.get_solver, get_solvers, get_groups, attributes of nbkode"],
     technique="abstract interpretation of the import and of every query; comparison with the documented names",
     note="Spellings: six per name. Names and groups are those of the documentation.")

prop("C18", "IMPLICIT, FIXED_STEP and the solver filters describe what the solver does",
     "IMPLICIT is True exactly for solvers whose new state is the solution of an equation, FIXED_STEP exactly for those whose every step "
     "advances by h; get_solvers(runge_kutta=True) lists only solvers that use no record before the current one and "
     "multistep=True lists all that do.",
     ["inputs", "configurations"],
     "all solvers, for all right-hand sides and histories",
     "tests read the flags only to choose solvers and never compare them with the steps taken",
     ["nbkode/core.py", "nbkode/multistep/core.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/implicit.py"],
     [("flags", "nbkode/*/core.py"), ("filters", "nbkode/core.py check")],
     observe=["solver.IMPLICIT, solver.FIXED_STEP, get_solvers"],
     technique=AI + "; data dependence of the new state and time", note=REAL)

prop("C20", "Multistep solvers start from a uniform history made by their first stepper",
     "A multistep solver of a formula with k past points, unless first_stepper_cls is None, stands at t0+(k-1)h after construction, "
     "with records at t0, t0+h, ... that are its first stepper's solution at exactly these times, with the "
     "derivatives there; RungeKutta45 by default, any solver given by class or name otherwise. It refuses to start beyond t_bound.",
     ["inputs", "configurations"],
     "all multistep solvers, all kinds of first steppers, any first step they choose, all t_bound",
     "tests only bound the global error of a few problems, which wrong starting points satisfy",
     ["nbkode/multistep/core.py", "nbkode/core.py"],
     [("start-up", "nbkode/multistep/core.py Multistep.__init__")],
     state=[("history", "LEN_HISTORY records", "nbkode/buffer.py")],
     observe=["solver.cache after construction"],
     technique=AI + "; differential comparison with an independent run of the first stepper",
     note="Variable-step and multistep first steppers with constant right-hand side. " + REAL)

prop("C22", "Options act as given, have the documented defaults; unusable ones are refused",
     "h, first_step, rtol, atol, min_step, max_step, min_factor, max_factor and safety_factor, each given or not, take effect with "
     "exactly their value or the documented default (SciPy's selection for first_step, the floor for rtol); h and first_step are not kept by reference. "
     "max_step <= 0 or atol < 0 raise ValueError and options a solver does not have raise TypeError.",
     ["inputs", "configurations"],
     "all solvers, all values and every option alone, absent or with all others (pairs in the thorough tier)",
     "tests set rtol and atol for a few problems and check final accuracy",
     ["nbkode/core.py", "nbkode/runge_kutta/core.py", "nbkode/multistep/core.py"],
     [("options", "nbkode/core.py VariableStepOptions, VariableStep.__init__"), ("step size", "nbkode/core.py Solver.__init__")],
     state=[("options", "limits and tolerances", "nbkode/core.py VariableStepOptions")],
     observe=["step sizes of solver.step and solver.skip, exceptions of the constructor"],
     technique=AI + "; comparison of the trial loop's normal forms between option sets and with the documented controller",
     note="SciPy's select_initial_step is uninterpreted. " + REAL)

prop("C21", "The right-hand side is called as documented, with and without params",
     "Without params the user's function is only ever called as rhs(t, y), and with params as rhs(t, y, params), where t is a "
     "scalar, y has the system's shape and params holds the values given, whether as array, tuple, list or scalar, by position "
     "or keyword. A function that ignores params gives the same solution as without them.",
     ["inputs", "configurations"],
     "all solvers including start-up steps and interpolation, all forms of params",
     "tests pass params with one solver family and one form",
     ["nbkode/core.py", "nbkode/multistep/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/core.py"],
     [("rhs wrapping", "nbkode/core.py Solver.__init__"), ("start-up", "nbkode/multistep/core.py")],
     observe=["arguments the user's function receives"],
     technique=AI + "; inspection of every abstract call of the right-hand side",
     note="Calls made inside SciPy's select_initial_step are outside. " + REAL)

prop("C24", "A call that fails leaves the solver at the end of its last completed step",
     "If the right-hand side or an event function raises, or a step fails, anywhere during step, skip, run, run_events or "
     "interpolate, the exception reaches the caller, and the solver's state, history and interpolation everywhere in its history are "
     "those at the end of the last step completed before the failure. For fixed-step solvers, the next step is then the one that "
     "would have followed.",
     ["fault_sequences", "inputs", "histories"],
     "all solvers, calls of the right-hand side or event functions that raise, rejected trials, and points of the history",
     "no test raises from a right-hand side or event function, and none uses a solver after a failure",
     ["nbkode/core.py", "nbkode/multistep/core.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py",
      "nbkode/event_handler.py", "nbkode/buffer.py"],
     [("step functions", "nbkode/*/core.py _step_builder"), ("stages kept for interpolation", "nbkode/runge_kutta/explicit.py FSAL, DOP853"),
      ("history buffer", "nbkode/buffer.py AlignedBuffer.push")],
     state=[("history", "last times, states and derivatives", "nbkode/buffer.py"),
            ("stages of the last step", "used by interpolation", "nbkode/runge_kutta/explicit.py K")],
     observe=["solver.t, solver.y, solver.f, solver.interpolate, solver.skip after an exception"],
     technique=AI + "; exceptional paths compared with completed steps",
     note="Exceptions of the user's functions; asynchronous interrupts are outside. Multi-step calls of variable-step solvers "
     "with rhs constant in t and y. " + REAL)

prop("C19", "With NBKODE_NONUMBA set, everything gives the same results as with numba",
     "Constructing any solver, step, skip, run, run_events, interpolate, get_groups and get_solvers give the same results, "
     "exceptions, warnings and solver state (t, y, f) whether numba is used or the environment variable NBKODE_NONUMBA is set.",
     ["configurations", "inputs"],
     "all solvers, all right-hand sides, all forms of y0, params, step size, requests and events",
     "the tests run in one configuration at a time (CI in one only) and never compare them",
     ["nbkode/nbcompat/__init__.py", "nbkode/nbcompat/nb_to_import.py", "nbkode/nbcompat/numbasub.py", "nbkode/core.py",
      "nbkode/buffer.py", "nbkode/event_handler.py", "nbkode/multistep/core.py"],
     [("substitutes for numba", "nbkode/nbcompat"), ("compiled classes", "nbkode/buffer.py, nbkode/event_handler.py")],
     observe=["results, exceptions and warnings of the same calls in the two configurations"],
     technique=AI + "; relational comparison of the two configurations",
     note="Compiled code is taken to compute what its source says, with jitclass attributes converted to their declared types. " + REAL)

prop("C23", "Solvers do not influence each other, nor calls of run_events each other",
     "What a solver returns and the states, history and dense output it goes through are the same whether other solvers, of "
     "the same class or another, sharing y0, h and params or not, are constructed and used in between or not. Events "
     "given to run_events leave nothing behind: a later run_events returns what it returns after run.",
     ["histories", "inputs"],
     "all pairs of a solver class with itself and another, right-hand sides, and interleavings of their calls",
     "tests use one solver at a time",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py",
      "nbkode/multistep/core.py", "nbkode/event_handler.py"],
     [("class-level functions and tables", "nbkode/core.py MetaSolver, nbkode/runge_kutta"), ("cache", "nbkode/buffer.py")],
     state=[("per-solver state", "cache, step size, stages", "nbkode/core.py Solver.__init__")],
     observe=["solver.t, y, f, interpolate, step of each of two solvers"],
     technique=AI + "; relational comparison of interleaved and separate uses",
     note="Sequences of up to four calls per solver, in one thread. " + REAL)

prop("C25", "A new solver stands at the initial condition, whatever form it is given in",
     "Given t0 as a number, integer or 0-d array and y0 as a number, integer, list, tuple or array of any real type, a new solver "
     "(a multistep one with first_stepper_cls=None) has t == t0, y == y0 as a one-dimensional double-precision array, f == rhs(t0, y0), and a history of only that; the right-hand side "
     "gets a scalar time and such arrays. Its first step is that for y0 given as array of floats.",
     ["inputs"],
     "all solvers, values and forms of t0 and y0, right-hand sides",
     "tests give floats in arrays; integers silently truncate if kept as such",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/multistep/core.py"],
     [("conversion", "nbkode/core.py Solver.__init__"), ("history", "nbkode/buffer.py AlignedBuffer")],
     observe=["solver.t, solver.y, solver.f, solver.cache, arguments of the right-hand side"],
     technique=AI + " with element types of arrays",
     note="Multistep solvers without start-up. " + REAL)


NA = [
    ("N01", "Global error stays within a multiple of the requested tolerance",
     "For a problem with smooth, Lipschitz right-hand side, the difference between solver.y and the exact solution at any time is "
     "bounded by a moderate multiple of rtol and atol.", ["inputs"],
     "all smooth problems and tolerances", "tests compare a few problems with loose tolerances",
     ["nbkode/runge_kutta/core.py"], [("error control", "nbkode/runge_kutta/core.py")],
     "the bound depends on the Lipschitz constant and on run-time magnitudes of an uninterpreted right-hand side; C02, C04 and C05 decide "
     "the ingredients that are in the source (order, error estimate, acceptance, step control)"),
    ("N02", "Every solver compiles under numba for every jittable right-hand side",
     "Constructing and stepping any solver with a numba-jittable right-hand side compiles without typing or lowering errors.",
     ["configurations", "inputs"], "all jittable functions and dtypes", "tests compile a handful of functions",
     ["nbkode/core.py", "nbkode/nbcompat/__init__.py"], [("jitted builders", "nbkode/*/core.py")],
     "typing is done by numba's own type inference, an external library whose rules depend on version and on the user's function; no "
     "static argument over this source settles it (C19 decides that the two configurations mean the same)"),
    ("N03", "Results equal SciPy's solvers to rounding accuracy",
     "RungeKutta23, RungeKutta45 and DOP853 take the same steps and give the same numbers as scipy.integrate's RK23, RK45 and DOP853.",
     ["inputs"], "all problems", "tests compare a few problems",
     ["nbkode/runge_kutta/explicit.py"], [("embedded pairs", "nbkode/runge_kutta")],
     "agreement to the last digits depends on floating-point evaluation order; the real-arithmetic content (tableaux, error "
     "estimate, controller, dense output) is decided by C02, C04, C05 and C06"),
    ("N04", "Implicit steps converge for every well-posed equation",
     "The root finder converges, rather than raising, whenever the implicit equation of a step has an isolated solution near the guess.",
     ["inputs"], "all right-hand sides and step sizes", "tests use well-conditioned problems",
     ["nbkode/nbcompat/zeros.py"], [("newton, secant", "nbkode/nbcompat/zeros.py")],
     "Newton convergence depends on run-time curvature and scale of the right-hand side; C03 decides that non-convergence is "
     "reported and a converged step solves its equation"),
    ("N05", "Accumulated rounding keeps times on the grid and within t_bound",
     "After any number of steps rounding does not push t beyond t_bound or make skip(n), step(n) or run lose or add a step.",
     ["inputs", "histories"], "all floating-point step sizes and times", "tests use few steps",
     ["nbkode/core.py"], [("t + h", "nbkode/*/core.py")],
     "depends on the rounding of concrete floating-point values over unboundedly many steps; C08 and C09 decide it in real arithmetic"),
]
for _id, _t, _s, _o, _q, _w, _f, _m, _na in NA:
    prop(_id, _t, _s, _o, _q, _w, _f, _m, na=_na)
