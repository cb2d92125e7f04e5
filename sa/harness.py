"""Solver set-ups shared by the checks."""
from __future__ import annotations

from fractions import Fraction

from . import arrays as A
from .interp import State
from .nf import F, NF, app, decide, subst
from .values import Arr, Phi, Unsupported
from .world import (S, T_HOLE, Vv, World, Y_HOLE, ge, gt, opaque_fn)
from . import npmodel as M
from .published_names import MULTISTEP, NAMES, RUNGE_KUTTA, fixed

H = S("h", "pos")


def bases(cls):
    return {c.name for c in cls.mro}


def family(cls):
    """by documented name (or that of a documented base class)"""
    for c in cls.mro:
        if c.name in MULTISTEP:
            return MULTISTEP[c.name][0]
        if c.name in RUNGE_KUTTA:
            return "RungeKutta"
    b = bases(cls)
    for n in ("AdamsBashforth", "AdamsMoulton", "BDF", "Multistep", "RungeKutta"):
        if n in b:
            return n
    return "?"


def is_fixed(w, st, cls):
    """by documented name; a class outside the documented ones by its flag (C18 compares flags with behaviour)"""
    for c in cls.mro:
        if c.name in NAMES:
            return fixed(c.name)
    v = w.const(st, cls, "FIXED_STEP")
    if not isinstance(v, bool):
        raise Unsupported(f"FIXED_STEP of {cls.name} is not a literal")
    return v


def make(w, st, cls, f=None, t0=None, y0=None, h=H, **kw):
    """a solver with an uninterpreted right-hand side, initial time and state"""
    f = f or opaque_fn("f")
    t0 = S("t0") if t0 is None else t0
    y0 = A.vec(w.itp, st, Vv("y0")) if y0 is None else y0
    if family(cls) in ("AdamsBashforth", "AdamsMoulton", "BDF", "Multistep"):
        kw.setdefault("first_stepper_cls", None)
    if h is not None:
        kw["h" if is_fixed(w, st, cls) else "first_step"] = h
    return w.call(st, cls, f, t0, y0, **kw)


def fill_history(w, st, sol, cls, tn=None, h=H, f="f"):
    """push a generic uniform history: t_i = tn-(n-1-i)h, distinct y_i, f_i = f(t_i, y_i);
    returns [(t_i, y_i, f_i)] oldest first"""
    tn = S("tn") if tn is None else tn
    n = w.const(st, cls, "LEN_HISTORY")
    cache = w.attr(st, sol, "cache")
    out = []
    for i in range(n):
        ti = tn - h * NF.const(n - 1 - i)
        yi = Vv(f"y[{i - n + 1}]")
        fi = NF.of(app(f, ti, yi, kind="v"))
        w.method(st, cache, "push", ti, A.vec(w.itp, st, yi), A.vec(w.itp, st, fi))
        out.append((ti, yi, fi))
    return out


def cases(st, v):
    """[(gate, leaf)] of a value under the state's guard, dropping infeasible gates"""
    from .values import gated_leaves
    out = []
    for g, x in gated_leaves(v):
        if decide(st.guard, g) is False:
            continue
        out.append((g, x))
    return out


def coeff(nf, atom):
    """(constant-free part, coefficient) of nf = a + c*atom with atom only linear there; None if not"""
    zero = subst(nf, {atom: NF.const(0)})
    one = subst(nf, {atom: NF.const(1)})
    return zero, one


def split_linear(nf, atom):
    """nf == a + c*atom for the *occurrence as a factor* of atom (not under other atoms):
    -> (a, c) with c free of atom, or None"""
    a = NF({})
    c = NF({})
    for mono, k in nf.t.items():
        hit = [(x, e) for x, e in mono if x == atom.uid]
        rest = tuple((x, e) for x, e in mono if x != atom.uid)
        if not hit:
            a = a + NF({mono: k})
        elif hit[0][1] == 1:
            c = c + NF({rest: k})
        else:
            return None
    return a, c


# ------------------------------------------------------- Runge-Kutta structure


class NotRK(ValueError):
    pass


def tableau(y_new, mu, tn, yn, f="f"):
    """stages [(c, row)], weights b with k_i = f(tn + c_i mu, yn + mu sum a_ij k_j) and
    y_new = yn + mu sum b_i k_i; stages ordered by dependency.  Raises NotRK."""
    stages = []          # atom, c, {atom: a}
    index = {}

    def combo(x, what):
        """x == yn + mu * sum const * stage  ->  {stage atom: const}"""
        out = {}
        rest = x - yn
        for a in sorted(rest.atoms(), key=lambda a: a.uid):
            if a.key[0] == "app" and a.key[1] == f and a.kind == "v":
                sp = split_linear(rest, a)
                if sp is None:
                    raise NotRK(f"{what}: not linear in a stage")
                q = ratio(sp[1], mu)
                if q is None:
                    raise NotRK(f"{what}: weight {sp[1].show(3)} of a stage is not a constant times the step")
                out[a] = q
                rest = sp[0]
        if rest.t:
            raise NotRK(f"{what}: leftover {rest.show(3)}")
        return out

    def visit(a):
        if a in index:
            return
        T, Y = a.key[2], a.key[3]
        if not (isinstance(T, NF) and isinstance(Y, NF)):
            raise NotRK("a stage has gated arguments")
        c = ratio(T - tn, mu)
        if c is None:
            raise NotRK(f"stage time {T.show(3)} is not tn + c*step")
        row = combo(Y, "stage")
        for x in row:
            visit(x)
        index[a] = len(stages)
        stages.append((a, c, row))

    b = combo(y_new, "result")
    for x in b:
        visit(x)
    return stages, index, b


def ratio(x, mu):
    """x / mu as a constant, None if it is not"""
    if not x.t:
        return Fraction(0)
    if len(mu.t) != len(x.t):
        return None
    m = next(iter(mu.t))
    if m not in x.t:
        return None
    q = x.t[m] / mu.t[m]
    return q if x == mu.scale(q) else None


def matrix(stages, index):
    n = len(stages)
    A_ = [[Fraction(0)] * n for _ in range(n)]
    for i, (_, _, row) in enumerate(stages):
        for a, q in row.items():
            A_[i][index[a]] = q
    return A_


def snap(x, digits=12, _memo=None):
    """round every coefficient to `digits` significant digits, inside applications too:
    identifies constants that differ by binary rounding only"""
    from .nf import Atom, _intern
    memo = {} if _memo is None else _memo
    if isinstance(x, NF):
        out = NF({})
        for m, c in x.t.items():
            term = NF.const(_round(c, digits))
            for u, e in m:
                a = snap(Atom._list[u], digits, memo)
                term = term * (a.pow(e) if e != 1 else a)
            out = out + term
        return out
    if isinstance(x, Atom):
        if x in memo:
            return memo[x]
        if x.key[0] == "sym":
            r = NF.of(x)
        elif x.key[0] == "poly":
            r = snap(x.key[1], digits, memo)
        else:
            new = tuple(snap(i, digits, memo) for i in x.key[2:])
            r = NF.of(_intern(("app", x.key[1]) + new, x.kind, x.sign))
            if x.key[1] == "abs" and isinstance(new[0], NF):
                from .nf import abs_nf
                r = abs_nf(new[0])
        memo[x] = r
        return r
    if isinstance(x, Fraction):
        return _round(x, digits)
    if isinstance(x, tuple):
        return tuple(snap(i, digits, memo) for i in x)
    if isinstance(x, frozenset):
        return frozenset(snap(i, digits, memo) for i in x)
    if isinstance(x, F):
        return map_leaves(x, lambda nf_: snap(nf_, digits, memo))
    if isinstance(x, Phi):
        from .values import mk_phi
        return mk_phi(snap(x.cond, digits, memo), snap(x.a, digits, memo), snap(x.b, digits, memo))
    return x


def _round(c, digits):
    if c == 0 or c.denominator == 1:
        return c
    from math import floor, log10
    e = digits - 1 - floor(log10(abs(c)))
    s = Fraction(10) ** e
    return Fraction(round(c * s)) / s


def map_leaves(x, fn):
    from .nf import and_, boolean, cmp_, not_, or_
    if isinstance(x, bool):
        return x
    if x.op == "cmp":
        return cmp_(fn(x.args[0]), x.args[1])
    if x.op in ("bool", "nbool"):
        b = boolean(fn(x.args[0]))
        return b if x.op == "bool" else not_(b)
    parts = [map_leaves(a, fn) for a in x.args[0]]
    return and_(*parts) if x.op == "and" else or_(*parts)


# ------------------------------------------------------------- one generic step


class Step:
    """one abstract step of a solver from a generic history"""

    def __init__(self, w, cls, **kw):
        self.w, self.cls = w, cls
        st = self.st = w.fork()
        itp = w.itp
        itp.loopinfo.clear()
        self.fixed = is_fixed(w, st, cls)
        self.sol = make(w, st, cls, **kw)
        self.hist = fill_history(w, st, self.sol, cls)
        self.tn, self.yn, self.fn = self.hist[-1]
        itp.effects.clear()
        itp.sinks[:] = [[]]
        self.before = st.fork()
        w.method(st, self.sol, "skip")
        self.raised = list(itp.sinks[-1])
        self.effects = list(itp.effects)
        self.t_new = w.val(st, w.attr(st, self.sol, "t"))
        self.y_new = w.val(st, w.attr(st, self.sol, "y"))
        self.f_new = w.val(st, w.attr(st, self.sol, "f"))
        self.loops = dict(itp.loopinfo)

    def single(self, v, what):
        """the value on every path (one leaf), as a normal form"""
        ls = [NF.of(x) for _, x in cases(self.st, v)]
        if len(set(ls)) != 1:
            raise NotRK(f"{what} differs between paths: {[l.show(3) for l in ls][:3]}")
        return ls[0]

    def mu(self):
        """the step actually taken"""
        return self.single(self.t_new, "new time") - self.tn


# ---------------------------------------------------- systems of concrete size


def cells_of(w, st, v):
    """element values of an array (or of a choice between arrays of one size)"""
    from .values import mk_phi
    if isinstance(v, Phi):
        a, b = cells_of(w, st, v.a), cells_of(w, st, v.b)
        if len(a) != len(b):
            raise Unsupported("arrays of different size")
        return [mk_phi(v.cond, x, y) for x, y in zip(a, b)]
    if isinstance(v, Arr):
        return list(A.cells(w.itp, st, v))
    return [v]


def opaque_system(w, n, name="f"):
    """an uninterpreted right-hand side of an n-dimensional system, component by component"""
    from .values import Opaque, lift

    def call(itp, st, o, args, kw):
        itp.eff(st, "rhs", name, tuple(args))
        tt = w.val(st, args[0])
        cs = cells_of(w, st, args[1])
        out = [lift(lambda t, *xs, i=i: NF.of(app(f"{name}{i}", NF.of(t), *[NF.of(x) for x in xs])), tt, *cs)
               for i in range(n)]
        return A.alloc(itp, st, out, (n,))
    return Opaque((name, n), None, call, note="fn")


def rhs_at(name, n, t, ys):
    return [NF.of(app(f"{name}{i}", t, *ys)) for i in range(n)]


def joint(cells, g=True):
    """(guard, leaves) over the satisfiable joint cases of several gated values"""
    from .nf import and_, sat
    from .values import gated_leaves
    if not cells:
        yield g, []
        return
    for gl, x in gated_leaves(cells[0]):
        c = and_(g, gl)
        if not sat(c):
            continue
        for g2, rest in joint(cells[1:], c):
            yield g2, [x] + rest
