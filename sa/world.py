"""Symbolic set-up shared by the checks: the lowered package, an uninterpreted
right-hand side and solvers with a generic history."""
from __future__ import annotations

from fractions import Fraction

from . import arrays as A
from . import npmodel as M
from .interp import Interp, State
from .published_names import NAMES
from .report import ImportFailure
from .nf import NF, POS, ZERO, and_, app, cmp_, sym
from .values import (UNDEF, Arr, Bound, Cls, Dead, Ext, Func, ListV, Model, Obj, Opaque, Phi, Unsupported, leaves, lift)

ROOT = "/repo"


def S(name, sign=None):
    return NF.of(sym(name, "s", sign))


def Vv(name):
    return NF.of(sym(name, "v"))


def gt(a, b):
    return cmp_(NF.of(a) - NF.of(b), {POS})


def ge(a, b):
    return cmp_(NF.of(a) - NF.of(b), {POS, ZERO})


Y_HOLE = sym("Y?", "v")
T_HOLE = sym("T?", "s")


def fn_call(name, kind="v"):
    def call(itp, st, o, args, kw):
        ts = [M.term(itp, st, a) for a in args]
        itp.eff(st, "rhs", name, tuple(ts), tuple(args))
        vs = [M.val(itp, st, a) for a in args]
        v = lift(lambda *xs: NF.of(app(name, *[M.term(itp, st, x) for x in xs], kind=kind)), *vs)
        return A.vec(itp, st, v, "rhs") if kind == "v" else v
    return call


def opaque_fn(name, kind="v", attrs=None):
    return Opaque((name,), attrs, fn_call(name, kind), note="fn")


def solution(r):
    """the point that solves r = 0; explicit where r is affine in it"""
    r = NF.of(r)
    rest = r.subst({Y_HOLE: NF({})})
    slope = r - rest
    if slope.t and all(len(m) == 1 and m[0] == (Y_HOLE.uid, 1) for m in slope.t):
        return rest.scale(-1 / next(iter(slope.t.values())))
    return NF.of(app("root", r, kind="v"))


def zeros_summary(itp, st, f, args, kw):
    """root finders, by contract: the returned point solves func(point, *args) = 0
    (their own obligations are decided separately on their source)"""
    vars_ = itp.bind_args(st, f, args, kw)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    if len(names) < 2 or itp.zeros_off:
        return NotImplemented
    func = vars_[names[0]]
    extra = vars_.get("args", ())
    extra = itp.iter_items(st, extra)
    if "left" in names or "bisect" in f.name:
        lo, hi = M.nf(itp, st, vars_[names[1]]), M.nf(itp, st, vars_[names[2]])
        r = M.val(itp, st, itp.call(st, func, [NF.of(T_HOLE)] + extra, {}))
        itp.eff(st, "bisect", lo, hi, r)
        root = NF.of(app("broot", M.term(itp, st, r), M.term(itp, st, lo), M.term(itp, st, hi)))
        return root
    guess = vars_[names[1]]
    if isinstance(guess, Arr) and guess.symax is None and guess.ndim == 1:
        return components_summary(itp, st, func, guess, extra)
    x0 = M.val(itp, st, vars_[names[1]])
    r = itp.call(st, func, [A.vec(itp, st, NF.of(Y_HOLE), "guess")] + extra, {})
    r = M.val(itp, st, r)
    y = lift(solution, r)
    itp.eff(st, "implicit", f.qual, r, x0, y,
            {k: v for k, v in vars_.items() if k not in (names[0], names[1], "args")})
    return A.vec(itp, st, y, "root")


def components_summary(itp, st, func, guess, extra):
    """the solution of an equation for a state of known length, component by component"""
    k = guess.shape[0]
    holes = [NF.of(sym(f"Y{i}?")) for i in range(k)]
    r = itp.call(st, func, [A.alloc(itp, st, holes, (k,), None, "guess")] + extra, {})
    rs = [M.val(itp, st, c) for c in A.cells(itp, st, A.to_array(itp, st, r))]
    itp.eff(st, "implicit-components", tuple(rs))
    return A.alloc(itp, st, [lift(lambda *xs, i=i: NF.of(app("root", i, *[NF.of(x) for x in xs])), *rs) for i in range(k)],
                   (k,), None, "root")


class World:
    def __init__(self, root=None, no_numba=False, summarise=True):
        self.itp = Interp(root or ROOT, no_numba)
        self.itp.zeros_off = not summarise
        self.st = self.itp.st0
        self.itp.exthooks["numba.extending.is_jitted"] = lambda i, s, a, k: isinstance(a[0], Func)
        self.itp.module_summaries["nbkode.nbcompat.zeros"] = zeros_summary
        try:
            self.nb = self.itp.import_module(self.st, "nbkode")
        except Dead:
            _, exc, where = self.itp.sinks[-1][-1]
            raise ImportFailure(f"importing nbkode raises {exc.name} {exc.args} at {where}")

    def fork(self):
        self.itp.effects.clear()
        self.itp.sinks[:] = [[]]
        self.itp.loops = ()
        self.itp.depth = 0
        return State(dict(self.st.heap), True)

    # ---------------------------------------------------------------- access
    def attr(self, st, o, *names):
        for n in names:
            o = self.itp.getattr(st, o, n)
        return o

    def call(self, st, f, *args, **kw):
        return self.itp.call(st, f, list(args), kw)

    def method(self, st, o, name, *args, **kw):
        return self.itp.call(st, self.itp.getattr(st, o, name), list(args), kw)

    def val(self, st, v):
        return M.val(self.itp, st, v)

    def term(self, st, v):
        return M.term(self.itp, st, v)

    def solver_classes(self, st=None):
        """registered concrete solver classes, by name"""
        st = (st or self.st).fork()
        self.itp.sinks.append([])
        try:
            out = {}
            try:
                out = {c.name: c for c in self.itp.iter_items(st, self.call(st, self.attr(st, self.nb, "get_solvers")))}
            except Dead:
                pass
            if not set(NAMES) <= set(out):          # the lookup itself is C17's subject
                solver = self.attr(st, self.itp.modules["nbkode.core"], "Solver")
                reg = self.attr(st, solver, "SOLVERS_BY_GROUP")
                for g in self.itp.iter_items(st, self.method(st, reg, "keys")):
                    for c in self.itp.iter_items(st, self.itp.getitem(st, reg, g)):
                        out[c.name] = c
            return out
        finally:
            self.itp.sinks.pop()

    def const(self, st, cls, name):
        v = self.itp.getattr(st, cls, name)
        if isinstance(v, Arr):
            cs = A.cells(self.itp, st, v)
            return cs
        return v

    def capture(self, st, fn):
        """run fn; returns (value | None if no path returns, raised [(state, exc, where)], effects)"""
        itp = self.itp
        itp.sinks.append([])
        n = len(itp.effects)
        try:
            v = fn(st)
            ok = True
        except Dead:
            v, ok = None, False
        raised = itp.sinks.pop()
        return ok, v, raised, itp.effects[n:]
