"""Lowering of the package source to a gated value graph.

An abstract interpreter over the syntax tree: every name, attribute, array cell
and list is bound to a normal form (``nf``), branches are joined with gates
(gated single-assignment form), loops are either unrolled when their trip count
is a constant of the program text or abstracted with a havoc fixpoint over the
locations the body modifies.  Nothing of the analysed package is executed.
"""
from __future__ import annotations

import ast
import itertools
import time
from fractions import Fraction
from pathlib import Path

from . import values as V
from .nf import (NEG, NF, POS, ZERO, F, all_atoms, and_, app, boolean, cmp_, conj, decide,
                 entails, implies_syn, not_, or_, sat, show, sym)
from .values import (UNDEF, Arr, Bound, ClassM, Cls, Dead, DictV, EnumVal, ExcCls, ExcV, Ext,
                     Func, IterV, ListV, Mod, Model, Obj, Opaque, Partial, Phi, Prop, RangeV,
                     SArr, SliceV, StaticM, SuperV, Unsupported, is_truthlike, lift, mk_phi, restrict,
                     same)

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception",
    "TypeError": "Exception", "RuntimeError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "NotImplementedError": "RuntimeError", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "AssertionError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "StopIteration": "Exception", "Warning": "Exception", "UserWarning": "Warning",
    "RuntimeWarning": "Warning", "DeprecationWarning": "Warning", "RecursionError": "RuntimeError",
    "NameError": "Exception", "OSError": "Exception", "LinAlgError": "ValueError",
    "UnboundLocalError": "NameError", "FutureWarning": "Warning",
}

BRANCHING_CAP = 8
UNROLL_CAP = 80
SPECULATE = 4     # iterations of a loop tried beyond one that may leave it
MAX_DEPTH = 60


class State:
    __slots__ = ("heap", "guard")

    def __init__(self, heap, guard):
        self.heap, self.guard = heap, guard

    def fork(self, guard=None):
        return State(dict(self.heap), self.guard if guard is None else guard)

    def assign(self, o):
        self.heap, self.guard = o.heap, o.guard


class Effect:
    __slots__ = ("kind", "data", "guard", "loops", "where")

    def __init__(self, kind, data, guard, loops, where):
        self.kind, self.data, self.guard, self.loops, self.where = kind, data, guard, loops, where

    def __repr__(self):
        return f"{self.kind}{self.data} if {self.guard} @{self.where}"


class Ctx:
    """per function activation"""

    def __init__(self, frame, module, func=None, cls=None):
        self.frame, self.module, self.func, self.cls = frame, module, func, cls
        self.returns = []
        self.loopstack = []  # (breaks, continues)


class LoopInfo:
    def __init__(self):
        self.entry = None
        self.head = None
        self.back = None
        self.havoc = {}
        self.exits = []
        self.k = None
        self.where = None


class PhiContent(tuple):
    pass


class Interp:
    def __init__(self, root, no_numba=False, package="nbkode"):
        self.root = Path(root)
        self.package = package
        self.no_numba = no_numba
        self.ids = itertools.count(1)
        self.effects = []
        self.loops = ()
        self.sinks = [[]]
        self.modules = {}
        self.meta = {}      # frame id -> (parent, module, kind)
        self.module_summaries = {}  # module -> model for calls from other modules
        self.summaries = {}  # qualname -> model(interp, st, func, args, kwargs)
        self.loopinfo = {}
        self.loopcount = itertools.count()
        self.branching_cap = BRANCHING_CAP
        self.unroll_cap = UNROLL_CAP
        self.deadline = None
        self.where = ("?", 0)
        self.depth = 0
        self.asts = {}
        self.stats = {"calls": 0, "stmts": 0, "functions": set(), "merges": 0, "loops": 0,
                      "branches": 0, "callsites": set()}
        self.storage_tag = {}
        self.jit_specs = {}  # class -> conversions of its attributes
        self.elem_cast = {}  # storage -> conversion of what is stored into it
        self.may_alias = {}
        self.exthooks = {}
        self.prelude_env = None
        self.undefined_externals = set()
        self.ext_attr_sets = {}
        from . import npmodel
        self.np = npmodel
        self.builtins = npmodel.builtins(self)
        self.trace_calls = []
        self.init_prelude()

    # ------------------------------------------------------------------ util
    def new(self, st, entry):
        i = next(self.ids)
        st.heap[i] = entry
        return i

    def eff(self, st, kind, *data):
        self.effects.append(Effect(kind, data, st.guard, self.loops, self.where))

    def unsupported(self, msg):
        raise Unsupported(f"{self.where[0]}:{self.where[1]}: {msg}")

    def raise_(self, st, exc):
        self.sinks[-1].append((st.fork(), exc, self.where))
        raise Dead

    def raise_if(self, st, cond, exc):
        """raise under cond, continue under not cond"""
        d = self.decide(st, cond)
        if d is True:
            self.raise_(st, exc)
        if d is False:
            return
        s = st.fork(and_(st.guard, cond))
        self.sinks[-1].append((s, exc, self.where))
        st.guard = and_(st.guard, not_(cond))

    def decide(self, st, f):
        if isinstance(f, bool):
            return f
        if self.deadline is not None and time.time() > self.deadline:
            self.unsupported("analysis budget of this instance exhausted")
        return decide(st.guard, f)

    def prune(self, st, v):
        """drop gates decided by the current path condition"""
        if isinstance(v, Phi):
            d = self.decide(st, v.cond)
            if d is True:
                return self.prune(st, v.a)
            if d is False:
                return self.prune(st, v.b)
        return v

    def module_file(self, name):
        p = self.root.joinpath(*name.split("."))
        for c in (p / "__init__.py", p.with_suffix(".py")):
            if c.exists():
                return c
        return None

    def parse(self, name):
        f = self.module_file(name)
        if f is None:
            d = self.root.joinpath(*name.split("."))
            if d.is_dir():  # namespace package
                self.asts[name] = (ast.parse(""), d)
                return self.asts[name]
            return None
        if name not in self.asts:
            self.asts[name] = (ast.parse(f.read_text(), str(f)), f)
        return self.asts[name]

    # ----------------------------------------------------------------- merge
    def merge_entry(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                if x is y or same(x, y):
                    out[k] = x
                elif (x is UNDEF or y is UNDEF) and isinstance(a, DictEntry):
                    out[k] = Phi(c, x, y)
                else:
                    out[k] = mk_phi(c, x, y)
            return type(a)(out)
        if isinstance(a, V.SContent) or isinstance(b, V.SContent):
            if isinstance(a, V.SContent) and isinstance(b, V.SContent) and same(a.base, b.base):
                i = 0
                while i < len(a.stores) and i < len(b.stores) and a.stores[i] == b.stores[i]:
                    i += 1
                return V.SContent(a.base, a.stores + b.stores[i:])
            return PhiContent((c, a, b))
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return tuple(x if x is y else mk_phi(c, x, y) for x, y in zip(a, b))
        if a == b:
            return a
        return PhiContent((c, a, b))

    def merge(self, pairs, cond=None):
        """pairs: [(state, value)] with pairwise disjoint guards -> (state, value)"""
        pairs = [p for p in pairs if p is not None and p[0].guard is not False]
        if not pairs:
            return None
        st, v = pairs[0]
        for s2, v2 in pairs[1:]:
            self.stats["merges"] += 1
            g1, g2 = st.guard, s2.guard
            c = cond if cond is not None and len(pairs) == 2 else self.split_cond(g1, g2)
            heap = dict(st.heap)
            for k, e2 in s2.heap.items():
                e1 = heap.get(k, UNDEF)
                if e1 is e2:
                    continue
                if e1 is UNDEF:
                    heap[k] = e2
                else:
                    heap[k] = self.merge_entry(c, e1, e2)
            v = mk_phi(c, v, v2)
            st = State(heap, or_(g1, g2))
        return st, v

    def split_cond(self, g1, g2):
        c1, c2 = conj(g1), conj(g2)
        r1, r2 = c1 - c2, c2 - c1
        if not r1 and not r2:
            return True
        if not r2:
            return and_(*r1)
        if not r1:
            return not_(and_(*r2))
        w1 = sum(1 for f in r1 for _ in f.leaves())
        w2 = sum(1 for f in r2 for _ in f.leaves())
        # a single complementary literal suffices
        for x in sorted(r1, key=lambda f: sum(1 for _ in f.leaves())):
            if not_(x) in r2:
                return x
        return and_(*r1) if w1 <= w2 else not_(and_(*r2))

    def branch(self, st, cond, fa, fb):
        """evaluate fa under cond / fb otherwise, join; fa,fb: state -> value"""
        d = self.decide(st, cond)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        s1 = st.fork(and_(st.guard, cond))
        s2 = st.fork(and_(st.guard, not_(cond)))
        base = st.guard
        g1, g2 = s1.guard, s2.guard
        out = []
        for s, f in ((s1, fa), (s2, fb)):
            try:
                out.append((s, f(s)))
            except Dead:
                out.append(None)
        r = self.join2(base, cond, (g1, out[0]), (g2, out[1]))
        if r is None:
            raise Dead
        st.assign(r[0])
        return r[1]

    def join2(self, base, cond, a, b):
        (g1, p1), (g2, p2) = a, b
        if p1 is None and p2 is None:
            return None
        if p1 is None or p2 is None:
            return p1 or p2
        untouched = p1[0].guard is g1 and p2[0].guard is g2
        r = self.merge([p1, p2], cond)
        if r and untouched:
            r[0].guard = base
        return r

    # ---------------------------------------------------------------- modules
    def init_prelude(self):
        from .prelude import SOURCE
        st = self.st0 = State({}, True)
        fr = self.new(st, {})
        self.meta[fr] = (None, "prelude", "module")
        self.prelude_env = fr
        tree = ast.parse(SOURCE)
        self.exec_block(tree.body, st, Ctx(fr, "prelude"))

    def import_module(self, st, name):
        if name in self.modules:
            return self.modules[name]
        if not (name == self.package or name.startswith(self.package + ".")):
            return Ext(name)
        if "." in name:
            parent = self.import_module(st, name.rsplit(".", 1)[0])
        got = self.parse(name)
        if got is None:
            self.raise_(st, ExcV("ModuleNotFoundError", (name,)))
        fr = self.new(st, {"__name__": name, "__file__": str(got[1])})
        self.meta[fr] = (None, name, "module")
        m = Mod(name, fr)
        self.modules[name] = m
        save = self.where, self.loops
        r = self.exec_block(got[0].body, st, Ctx(fr, name))
        self.where, self.loops = save
        if r is None:
            raise Dead
        st.assign(r)
        if "." in name:
            p, leaf = name.rsplit(".", 1)
            pm = self.modules[p]
            d = dict(st.heap[pm.eid])
            d[leaf] = m
            st.heap[pm.eid] = d
        return m

    def import_source(self, st, name, src):
        """lower a harness module written in Python (part of the checker)"""
        fr = self.new(st, {"__name__": name})
        self.meta[fr] = (None, name, "module")
        m = Mod(name, fr)
        self.modules[name] = m
        r = self.exec_block(ast.parse(src).body, st, Ctx(fr, name))
        if r is None:
            raise Dead
        st.assign(r)
        return m

    # ------------------------------------------------------------- variables
    def lookup(self, st, ctx, name):
        fr = ctx.frame
        first = True
        while fr is not None:
            parent, module, kind = self.meta[fr]
            if kind != "class" or first:
                vars_ = st.heap[fr]
                v = vars_.get(name, UNDEF)
                if v is not UNDEF:
                    if isinstance(v, Cell):
                        fr = v.frame
                        continue
                    if isinstance(v, Phi):
                        v2 = self.prune(st, v)
                        if v2 is not v:
                            d = dict(vars_)
                            d[name] = v2
                            st.heap[fr] = d
                        v = v2
                    return v
            first = False
            fr = parent
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return ExcCls(name)
        v = st.heap[self.prelude_env].get(name, UNDEF)
        if v is not UNDEF and ctx.module == "prelude":
            return v
        self.eff(st, "nameerror", name)
        self.raise_(st, ExcV("NameError", (name,)))

    def setvar(self, st, ctx, name, v):
        fr = ctx.frame
        d = st.heap[fr]
        cur = d.get(name)
        if isinstance(cur, Cell):
            fr = cur.frame
            d = st.heap[fr]
        d = dict(d)
        d[name] = v
        st.heap[fr] = d

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx):
        for s in stmts:
            try:
                r = self.exec_stmt(s, st, ctx)
            except Dead:
                return None
            if r is None:
                return None
            st = r
        return st

    def exec_stmt(self, s, st, ctx):
        self.where = (ctx.module, s.lineno)
        self.stats["stmts"] += 1
        if self.stats["stmts"] > 3_000_000:
            self.unsupported("analysis budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported(f"statement {type(s).__name__}")
        return m(s, st, ctx)

    def s_Expr(self, s, st, ctx):
        self.ev(s.value, st, ctx)
        return st

    def s_Pass(self, s, st, ctx):
        return st

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            v = self.ev(s.value, st, ctx)
            self.assign(s.target, v, st, ctx)
        return st

    def s_AugAssign(self, s, st, ctx):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, ctx, t.id)
            v = self.ev(s.value, st, ctx)
            self.setvar(st, ctx, t.id, self.aug(st, op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, ctx)
            cur = self.getattr(st, o, t.attr)
            v = self.ev(s.value, st, ctx)
            self.setattr(st, o, t.attr, self.aug(st, op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, ctx)
            i = self.ev_index(t.slice, st, ctx)
            cur = self.getitem(st, o, i)
            v = self.ev(s.value, st, ctx)
            self.setitem(st, o, i, self.aug(st, op, cur, v))
        else:
            self.unsupported("augmented target")
        return st

    def aug(self, st, op, cur, v):
        cur = self.prune(st, cur)
        if isinstance(cur, Phi) and any(isinstance(x, (Arr, ListV)) for x in V.leaves(cur)):
            return self.branch(st, cur.cond, lambda s: self.aug(s, op, cur.a, v),
                               lambda s: self.aug(s, op, cur.b, v))
        if isinstance(cur, Arr):
            r = self.np.binop(self, st, op, cur, v)
            self.np.store_whole(self, st, cur, r)
            return cur
        if isinstance(cur, ListV) and op == "Add":
            self.np.list_extend(self, st, cur, v)
            return cur
        return self.np.binop(self, st, op, cur, v)

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.setvar(st, ctx, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st, ctx), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, ctx)
            i = self.ev_index(t.slice, st, ctx)
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]
                items = self.iter_items(st, v)
                n_after = len(t.elts) - k - 1
                mid = items[k:len(items) - n_after]
                vals = list(items[:k]) + [ListV(self.new(st, tuple(mid)))] + list(items[len(items) - n_after:])
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, ctx)
                return
            items = self.unpack(st, v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, ctx)
        else:
            self.unsupported("assignment target")

    def unpack(self, st, v, n):
        v = self.prune(st, v)
        if isinstance(v, Phi):
            a = self.unpack(st, v.a, n)
            b = self.unpack(st, v.b, n)
            return [mk_phi(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, Opaque):
            return [self.np.opaque_item(self, st, v, i) for i in range(n)]
        items = self.iter_items(st, v)
        if len(items) != n:
            self.raise_(st, ExcV("ValueError", ("unpack",)))
        return items

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(st.heap[ctx.frame])
                d.pop(t.id, None)
                st.heap[ctx.frame] = d
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, ctx)
                i = self.ev_index(t.slice, st, ctx)
                self.np.delitem(self, st, o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, ctx)
                d = dict(st.heap[o.oid])
                d.pop(t.attr, None)
                st.heap[o.oid] = d
            else:
                self.unsupported("del")
        return st

    def s_If(self, s, st, ctx):
        self.stats["branches"] += 1
        c = self.truth(st, self.ev(s.test, st, ctx))
        d = self.decide(st, c)
        if d is True:
            return self.exec_block(s.body, st, ctx)
        if d is False:
            return self.exec_block(s.orelse, st, ctx)
        base = st.guard
        s1 = st.fork(and_(base, c))
        s2 = st.fork(and_(base, not_(c)))
        g1, g2 = s1.guard, s2.guard
        r1 = self.exec_block(s.body, s1, ctx) if g1 is not False else None
        r2 = self.exec_block(s.orelse, s2, ctx) if g2 is not False else None
        r = self.join2(base, c, (g1, r1 and (r1, None)), (g2, r2 and (r2, None)))
        return r and r[0]

    def s_Return(self, s, st, ctx):
        v = None if s.value is None else self.ev(s.value, st, ctx)
        ctx.returns.append((st, v))
        return None

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            exc = getattr(self, "cur_exc", None) or ExcV("RuntimeError")
        else:
            exc = self.ev(s.exc, st, ctx)
            if isinstance(exc, ExcCls):
                exc = ExcV(exc.name)
            elif isinstance(exc, Cls):
                exc = ExcV(exc)
        if isinstance(exc, Obj):
            exc = ExcV(exc.cls)
        if not isinstance(exc, ExcV):
            exc = ExcV("Exception", (repr(exc),))
        self.raise_(st, exc)

    def s_Assert(self, s, st, ctx):
        c = self.truth(st, self.ev(s.test, st, ctx))
        self.raise_if(st, not_(c), ExcV("AssertionError"))
        return st

    def s_Break(self, s, st, ctx):
        ctx.loopstack[-1][0].append((st, None))
        return None

    def s_Continue(self, s, st, ctx):
        ctx.loopstack[-1][1].append((st, None))
        return None

    def s_Global(self, s, st, ctx):
        d = dict(st.heap[ctx.frame])
        mod = self.modules.get(ctx.module)
        for n in s.names:
            d[n] = Cell(mod.eid)
        st.heap[ctx.frame] = d
        return st

    def s_Nonlocal(self, s, st, ctx):
        d = dict(st.heap[ctx.frame])
        for n in s.names:
            fr = self.meta[ctx.frame][0]
            while fr is not None and n not in st.heap[fr]:
                fr = self.meta[fr][0]
            d[n] = Cell(fr)
        st.heap[ctx.frame] = d
        return st

    def s_Import(self, s, st, ctx):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname:
                v = self.import_module(st, a.name)
                self.setvar(st, ctx, a.asname, v)
            else:
                self.import_module(st, a.name)
                self.setvar(st, ctx, top, self.import_module(st, top))
        return st

    def s_ImportFrom(self, s, st, ctx):
        if s.module == "__future__":
            return st
        if s.level:
            base = ctx.module
            ispkg = self.module_file(base) is not None and self.module_file(base).name == "__init__.py"
            parts = base.split(".")
            drop = s.level - (1 if ispkg else 0)
            parts = parts[:len(parts) - drop] if drop else parts
            name = ".".join(parts + ([s.module] if s.module else []))
        else:
            name = s.module
        m = self.import_module(st, name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in st.heap[m.eid].items():
                        if not k.startswith("_"):
                            self.setvar(st, ctx, k, v)
                    continue
                self.unsupported("import *")
            if isinstance(m, Mod):
                v = st.heap[m.eid].get(a.name, UNDEF)
                if v is UNDEF and self.module_file(f"{name}.{a.name}"):
                    v = self.import_module(st, f"{name}.{a.name}")
                if v is UNDEF:
                    self.raise_(st, ExcV("ImportError", (f"{name}.{a.name}",)))
            else:
                v = self.getattr(st, m, a.name)
            self.setvar(st, ctx, a.asname or a.name, v)
        return st

    def s_FunctionDef(self, s, st, ctx):
        f = self.mkfunc(s, st, ctx, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, ctx)
            v = self.call(st, dv, [v], {})
        self.setvar(st, ctx, s.name, v)
        return st

    def mkfunc(self, node, st, ctx, name):
        a = node.args
        defaults = tuple(self.ev(d, st, ctx) for d in a.defaults)
        kwd = tuple(UNDEF if d is None else self.ev(d, st, ctx) for d in a.kw_defaults)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
            if not isinstance(node, ast.Lambda):
                pass
        qn = name if ctx.func is None and ctx.cls is None else f"{self._q(ctx)}.{name}"
        f = Func(node, ctx.frame, ctx.module, qn, defaults, kwd, ctx.cls)
        return f

    def _q(self, ctx):
        if ctx.cls is not None and ctx.func is None:
            return ctx.cls[1]
        return ctx.func.name if ctx.func is not None else ""

    def s_ClassDef(self, s, st, ctx):
        bases = [self.ev(b, st, ctx) for b in s.bases]
        kws = {k.arg: self.ev(k.value, st, ctx) for k in s.keywords}
        meta = kws.pop("metaclass", None)
        fr = self.new(st, {})
        self.meta[fr] = (ctx.frame, ctx.module, "class")
        cell = [None, s.name]
        r = self.exec_block(s.body, st, Ctx(fr, ctx.module, None, cell))
        if r is None:
            raise Dead
        st.assign(r)
        ns = dict(st.heap[fr])
        self.where = (ctx.module, s.lineno)
        cls = self.mkclass(st, s.name, ctx.module, bases, ns, kws, cell)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(st, self.ev(d, st, ctx), [v], {})
        self.setvar(st, ctx, s.name, v)
        return st

    def mkclass(self, st, name, module, bases, ns, kws, cell=None):
        pl = st.heap[self.prelude_env]
        rb = []
        isenum = False
        for b in bases:
            if isinstance(b, Ext):
                leaf = b.path.split(".")[-1]
                if leaf in ("Enum", "IntEnum", "Flag", "IntFlag"):
                    isenum = True
                    continue
                if leaf in ("ABC", "ABCMeta", "Generic", "Protocol", "object", "NamedTuple"):
                    continue
                if leaf in ("MutableMapping", "Mapping") and leaf in pl:
                    rb.append(pl[leaf])
                    continue
                self.unsupported(f"base class {b.path}")
            elif isinstance(b, (Cls,)):
                rb.append(b)
            elif isinstance(b, ExcCls):
                rb.append(b)
            elif isinstance(b, Model) and b.name in ("object", "dict", "list"):
                if b.name == "dict":
                    self.unsupported("dict subclass")
            else:
                self.unsupported(f"base class {b!r}")
        cid = self.new(st, ns)
        cls = Cls(cid, name, module, tuple(rb))
        cls.enum = isenum or any(getattr(b, "enum", False) for b in rb)
        cls.mro = (cls,) + tuple(self.c3([list(b.mro) if isinstance(b, Cls) else [b] for b in rb] + [list(rb)]))
        if cell is not None:
            cell[0] = cls
        if cls.enum:
            d = dict(ns)
            for k, v in list(ns.items()):
                if not k.startswith("_") and not isinstance(v, (Func, StaticM, ClassM, Prop)):
                    d[k] = EnumVal(cls, k, v)
            st.heap[cid] = d
            return cls
        # __set_name__ is not used; __init_subclass__ of the bases
        for b in cls.mro[1:]:
            if isinstance(b, Cls):
                f = st.heap[b.cid].get("__init_subclass__", UNDEF)
                if f is not UNDEF:
                    f = f.func if isinstance(f, ClassM) else f
                    self.call(st, f, [cls], kws)
                    break
        else:
            if kws:
                self.raise_(st, ExcV("TypeError", ("__init_subclass__ takes no keyword arguments",)))
        return cls

    def c3(self, seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.unsupported("inconsistent MRO")
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def s_Try(self, s, st, ctx):
        self.sinks.append([])
        nret = len(ctx.returns)
        g0 = st.guard
        try:
            out = self.exec_block(s.body, st.fork(), ctx)
            if out is not None and s.orelse:
                # exceptions of the else part are not handled here
                raised = self.sinks.pop()
                out2 = self.exec_block(s.orelse, out, ctx)
                self.sinks.append(raised)
                out = out2
        finally:
            raised = self.sinks.pop()
        outs = [(out, None)] if out is not None else []
        for rs, exc, where in raised:
            handled = False
            for h in s.handlers:
                types = None if h.type is None else self.ev(h.type, rs, ctx)
                if types is None or self.exc_match(exc, types):
                    hs = rs
                    if h.name:
                        self.setvar(hs, ctx, h.name, exc)
                    save = getattr(self, "cur_exc", None)
                    self.cur_exc = exc
                    r = self.exec_block(h.body, hs, ctx)
                    self.cur_exc = save
                    if r is not None:
                        outs.append((r, None))
                    handled = True
                    break
            if not handled:
                if s.finalbody:
                    rs = self.exec_block(s.finalbody, rs, ctx)
                    if rs is None:
                        continue
                self.sinks[-1].append((rs, exc, where))
        r = self.merge(outs)
        if r is not None and len(outs) > 1:
            # all paths joined again?
            if entails(g0, r[0].guard) if not isinstance(r[0].guard, bool) else False:
                r[0].guard = g0
        res = r and r[0]
        if s.finalbody:
            new = ctx.returns[nret:]
            del ctx.returns[nret:]
            for rs, v in new:
                rs = self.exec_block(s.finalbody, rs, ctx)
                if rs is not None:
                    ctx.returns.append((rs, v))
            if res is not None:
                res = self.exec_block(s.finalbody, res, ctx)
        return res

    def exc_match(self, exc, types):
        if isinstance(types, tuple):
            return any(self.exc_match(exc, t) for t in types)
        if isinstance(types, ExcCls):
            name = exc.cls if isinstance(exc.cls, str) else None
            if name is None:
                for b in exc.cls.mro:
                    if isinstance(b, ExcCls):
                        name = b.name
                        break
            while name:
                if name == types.name:
                    return True
                name = BUILTIN_EXC.get(name, "Exception" if name != "BaseException" else None)
            return False
        if isinstance(types, Cls):
            return isinstance(exc.cls, Cls) and types in exc.cls.mro
        if isinstance(types, Ext):
            leaf = types.path.split(".")[-1]
            return self.exc_match(exc, ExcCls(leaf)) if leaf in BUILTIN_EXC else False
        self.unsupported(f"except {types!r}")

    def s_With(self, s, st, ctx):
        for it in s.items:
            v = self.ev(it.context_expr, st, ctx)
            if isinstance(v, Opaque) or isinstance(v, Ext):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, ctx)
            else:
                self.unsupported("with")
        return self.exec_block(s.body, st, ctx)

    # ----------------------------------------------------------------- loops
    def s_While(self, s, st, ctx):
        """unroll while the continuation is decided, otherwise abstract"""
        literal_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        outs, spec, left = [], None, 0
        self.stats["loops"] += 1
        for it in range(UNROLL_CAP):
            snap = st.fork()
            marks = self.mark(ctx)
            if literal_true:
                c = True
            else:
                try:
                    c = self.truth(st, self.ev(s.test, st, ctx))
                except Dead:
                    return self.merge_exit(outs)
                c = self.decide(st, c)
            if c is False:
                r = self.exec_block(s.orelse, st, ctx) if s.orelse else st
                if r is not None:
                    outs.append((r, None))
                return self.merge_exit(outs)
            if c is None:
                return self.give_up_unrolling(s, ctx, outs, spec or (snap, marks, len(outs)))
            g0 = st.guard
            ctx.loopstack.append(([], []))
            r = self.exec_block(s.body, st, ctx)
            br, co = ctx.loopstack.pop()
            nxt = self.merge([(r, None)] + co if r is not None else co)
            undecided = (nxt is not None and (br or len(ctx.returns) > marks[0] or
                         any(len(a) > b for a, b in zip(self.sinks, marks[2])))
                         and not (nxt[0].guard is g0))
            if undecided and spec is None:
                # the loop may still end by itself after a few more iterations
                spec, left = (snap, marks, len(outs)), SPECULATE
            if spec is not None and nxt is not None:
                left -= 1
                if literal_true or left < 0:
                    return self.give_up_unrolling(s, ctx, outs, spec)
            outs += br
            if nxt is None:
                return self.merge_exit(outs)
            st = nxt[0]
        self.unsupported("while loop not summarised within the unrolling cap")

    def give_up_unrolling(self, s, ctx, outs, spec):
        """abstract the loop from the state in which unrolling it became undecided"""
        snap, marks, n = spec
        self.rollback(ctx, marks)
        del outs[n:]
        r = self.abstract_loop(snap, ctx, s, "while")
        if r is not None:
            outs.append((r, None))
        return self.merge_exit(outs)

    def merge_exit(self, outs):
        r = self.merge(outs)
        return r and r[0]

    def mark(self, ctx):
        return (len(ctx.returns), len(self.effects), [len(x) for x in self.sinks])

    def rollback(self, ctx, m):
        del ctx.returns[m[0]:]
        del self.effects[m[1]:]
        for x, n in zip(self.sinks, m[2]):
            del x[n:]

    def s_For(self, s, st, ctx):
        self.stats["loops"] += 1
        it = self.ev(s.iter, st, ctx)
        return self.for_over(s, st, ctx, it)

    def for_over(self, s, st, ctx, it):
        it = self.prune(st, it)
        if isinstance(it, Phi):
            base = st.guard
            s1 = st.fork(and_(base, it.cond))
            s2 = st.fork(and_(base, not_(it.cond)))
            g1, g2 = s1.guard, s2.guard
            r1 = self.for_over(s, s1, ctx, it.a)
            r2 = self.for_over(s, s2, ctx, it.b)
            r = self.join2(base, it.cond, (g1, r1 and (r1, None)), (g2, r2 and (r2, None)))
            return r and r[0]
        items = self.try_items(st, it)
        if isinstance(items, Phi):
            return self.for_over(s, st, ctx, Phi(items.cond, items.a, items.b))
        if items is not None and len(items) > self.unroll_cap:
            items = None
        if items is None:
            return self.abstract_loop(st, ctx, s, "for", it)
        outs = []
        snap, marks, long = st.fork(), self.mark(ctx), len(items) > self.branching_cap
        for x in items:
            self.assign(s.target, x, st, ctx)
            ctx.loopstack.append(([], []))
            g0 = st.guard
            r = self.exec_block(s.body, st, ctx)
            br, co = ctx.loopstack.pop()
            outs += br
            nxt = self.merge([(r, None)] + co if r is not None else co)
            if long and nxt is not None and nxt[0].guard is not g0 and (
                    br or len(ctx.returns) > marks[0] or any(len(a) > b for a, b in zip(self.sinks, marks[2]))):
                # a long loop with data-dependent exits: summarise instead of unrolling
                self.rollback(ctx, marks)
                return self.abstract_loop(snap, ctx, s, "for", it)
            if nxt is None:
                return self.merge_exit(outs)
            st = nxt[0]
        if s.orelse:
            st = self.exec_block(s.orelse, st, ctx)
        if st is not None:
            outs.append((st, None))
        return self.merge_exit(outs)

    def abstract_loop(self, st, ctx, s, kind, it=None):
        vid = next(self.loopcount)
        where = self.where
        info = LoopInfo()
        info.where = where
        info.entry = st.fork()
        k = NF.of(sym(f"k{vid}", sign="nonneg"))
        info.k = k
        length = elem = None
        if kind == "for":
            length, elem = self.np.sym_iter(self, st, it)
        havoc = {}
        marks = self.mark(ctx)
        rotated = False
        if kind == "while" and not (isinstance(s.test, ast.Constant) and bool(s.test.value)):
            # entered for sure: the condition is a test made at the end of every iteration
            try:
                probe = st.fork()
                rotated = self.decide(probe, self.truth(probe, self.ev(s.test, probe, ctx))) is True
            except Dead:
                rotated = False
            self.rollback(ctx, marks)
        for attempt in range(25):
            self.rollback(ctx, marks)
            h = st.fork()
            self.apply_havoc(h, havoc, vid, k)
            info.head = h.fork()
            self.loops = self.loops + (vid,)
            exits = []
            cur = h
            dead_head = False
            if kind == "while":
                if not (isinstance(s.test, ast.Constant) and bool(s.test.value)):
                    try:
                        c = self.truth(cur, self.ev(s.test, cur, ctx))
                    except Dead:
                        dead_head = True
                        c = False
                    if rotated:
                        cur.guard = and_(cur.guard, c)
                    elif not dead_head:
                        ex = cur.fork(and_(cur.guard, not_(c)))
                        if not_(c) is not False and self.decide(cur, c) is not True:
                            exits.append((ex, None))
                        cur.guard = and_(cur.guard, c)
            else:
                c = cmp_(NF.of(length) - k, {POS})
                ex = cur.fork(and_(cur.guard, not_(c)))
                if self.decide(cur, c) is not True:
                    exits.append((ex, None))
                cur.guard = and_(cur.guard, c)
            back = None
            brs = []
            if not dead_head and cur.guard is not False and sat(cur.guard):
                ok = True
                if kind == "for":
                    try:
                        self.assign(s.target, elem(cur, k), cur, ctx)
                    except Dead:
                        ok = False
                if ok:
                    ctx.loopstack.append(([], []))
                    r = self.exec_block(s.body, cur, ctx)
                    brs, co = ctx.loopstack.pop()
                    m = self.merge([(r, None)] + co if r is not None else co)
                    back = m and m[0]
                    if rotated and back is not None:
                        back = self.test_at_end(s.test, back, ctx, exits)
            self.loops = self.loops[:-1]
            if back is None:
                changed = {}
            else:
                changed = self.diff(info.head, back, st.heap)
                if rotated:
                    # flags the test reads: known where the loop goes on
                    changed = {l: b for l, b in changed.items()
                               if not (isinstance(b, F) and isinstance(self.read_loc(info.head, l), bool)
                                       and self.decide(back, b) is self.read_loc(info.head, l))}
            new = {l: b for l, b in changed.items() if l not in havoc}
            if new:
                for l, b in new.items():
                    havoc[l] = {"mode": "mu", "back": b, "hint": None, "try": 0}
                continue
            again = False
            for l, d in havoc.items():
                b = changed.get(l, UNDEF)
                d["back"] = b
                if b is UNDEF:
                    continue
                again |= self.refine(st, l, d, b, vid, k)
            if again:
                continue
            break
        else:
            self.unsupported("loop fixpoint not reached")
        info.back = back
        info.havoc = havoc
        if kind == "for" and s.orelse or kind == "while" and s.orelse:
            ee = []
            for ex, _ in exits:
                r = self.exec_block(s.orelse, ex, ctx)
                if r is not None:
                    ee.append((r, None))
            exits = ee
        info.exits = [e.fork() for e, _ in exits + brs]
        self.loopinfo[vid] = info
        r = self.merge(exits + brs)
        return r and r[0]

    def test_at_end(self, test, back, ctx, exits):
        """the state in which another iteration follows; the others leave the loop"""
        try:
            c = self.truth(back, self.ev(test, back, ctx))
        except Dead:
            return None
        d = self.decide(back, c)
        if d is not True:
            exits.append((back.fork(and_(back.guard, not_(c))), None))
        if d is False:
            return None
        back.guard = and_(back.guard, c)
        return back if sat(back.guard) else None

    def diff(self, head, back, base):
        """locations of the entry heap changed by one iteration"""
        out = {}
        for eid in base:
            a, b = head.heap.get(eid), back.heap.get(eid)
            if a is b:
                continue
            if isinstance(a, dict) and isinstance(b, dict) and not isinstance(a, DictEntry):
                for k in sorted(set(a) | set(b), key=str):
                    x, y = a.get(k, UNDEF), b.get(k, UNDEF)
                    if x is not y and not same(x, y):
                        out[(eid, k)] = y
            elif type(a) is tuple and type(b) is tuple and len(a) == len(b) and eid in self.storage_tag:
                for i, (x, y) in enumerate(zip(a, b)):
                    if x is not y and not same(x, y):
                        out[(eid, i)] = y
            elif a != b:
                out[(eid, "*")] = b
        return out

    def read_loc(self, st, loc):
        e = st.heap[loc[0]]
        if loc[1] == "*":
            return e
        if isinstance(e, dict):
            return e.get(loc[1], UNDEF)
        return e[loc[1]]

    def write_loc(self, st, loc, v):
        e = st.heap[loc[0]]
        if loc[1] == "*":
            st.heap[loc[0]] = v
        elif isinstance(e, dict):
            d = type(e)(e)
            if v is UNDEF:
                d.pop(loc[1], None)
            else:
                d[loc[1]] = v
            st.heap[loc[0]] = d
        else:
            st.heap[loc[0]] = e[:loc[1]] + (v,) + e[loc[1] + 1:]

    def apply_havoc(self, st, havoc, vid, k):
        for n, (loc, d) in enumerate(havoc.items()):
            init = self.read_loc(st, loc)
            # the name determines the sign hint: symbols are interned by name
            name = f"m{vid}.{loc[1]}.{n}" + ("+" if d.get("hint") == "pos" else "")
            d["name"] = name
            self.write_loc(st, loc, self.mu(st, name, init, d, k))

    def mu(self, st, name, init, d, k):
        back = d["back"]
        if d["mode"] == "ind":
            return self.np.num_norm(NF.of(init) + NF.of(d["step"]) * k)
        return self.mu_value(st, name, init, back, d.get("hint"))

    def mu_value(self, st, name, init, back, hint=None):
        np = self.np
        ref = init if init is not UNDEF else back
        vals = [x for v in (init, back) if v is not UNDEF for x in V.leaves(v)]
        if all(is_truthlike(x) for x in vals):
            return boolean(app("mu", name))
        if all(np.is_scalar(x) for x in vals):
            vec = any(isinstance(x, NF) and x.is_vec() for x in vals)
            if vec:
                return NF.of(sym(name, "v"))
            return NF.of(sym(name, "s", hint))
        if all(isinstance(x, Arr) for x in vals):
            a0 = vals[0]
            if all((x.shape, x.symax) == (a0.shape, a0.symax) for x in vals):
                if len({(x.sid, x.idx) for x in vals}) == 1 and a0.sid in st.heap:
                    return a0
                sid = self.np.mu_storage(self, st, name, a0, {x.sid for x in vals if x.sid in st.heap})
                return Arr(sid, tuple(range(len(st.heap[sid]))), a0.shape, a0.symax)
        if all(isinstance(x, (Arr,)) or np.is_scalar(x) for x in vals):
            # scalar or 0-d / vector arrays: by value
            arr = [x for x in vals if isinstance(x, Arr)]
            if all(x.shape == () for x in arr):
                vec = any(x.symax is not None for x in arr)
                return NF.of(sym(name, "v" if vec else "s"))
        if all(isinstance(x, tuple) for x in vals) and len({len(x) for x in vals}) == 1:
            comps = []
            for i in range(len(vals[0])):
                comps.append(self.mu_value(st, f"{name}[{i}]", init[i] if isinstance(init, tuple) else UNDEF,
                                           back[i] if isinstance(back, tuple) else vals[-1][i]))
            return tuple(comps)
        if isinstance(ref, (V.SContent,)) or type(ref) is tuple or isinstance(ref, PhiContent):
            return V.SContent(("list", name, self.np.freeze(ref)), ())
        # finite set of references
        out = init
        b = boolean(app("mu", name))
        if init is UNDEF:
            return UNDEF
        if back is UNDEF or same(init, back):
            return init
        if isinstance(back, Phi) or not same(init, back):
            alts = []
            for x in V.leaves(back):
                if not any(same(x, y) for y in alts) and not any(same(x, y) for y in V.leaves(init)):
                    alts.append(x)
            for i, x in enumerate(alts):
                out = Phi(boolean(app("mu", f"{name}#{i}")), out, x) if not same(out, x) else out
            return out
        self.unsupported(f"loop-carried value {init!r} / {back!r}")

    def refine(self, st, loc, d, b, vid, k):
        """strengthen a havocked location: induction variables, sign invariants"""
        init = self.read_loc(st, loc)
        if d["mode"] == "ind":
            want = NF.of(init) + NF.of(d["step"]) * (k + NF.const(1))
            try:
                if self.np.is_scalar(b) and not isinstance(b, Phi) and NF.of(b) == want:
                    return False
            except TypeError:
                pass
            d["mode"] = "mu"
            d["noind"] = True
            return True
        mu = sym(d["name"], "s", d.get("hint")) if d.get("hint") else None
        if self.np.is_scalar(init) and not isinstance(init, (bool, float)) and not d.get("noind") \
                and isinstance(b, NF) and not isinstance(init, Phi):
            m = NF.of(sym(d["name"], "s", d.get("hint")))
            delta = b - m
            if not any(a.key[0] == "sym" and (a.key[1].startswith(f"m{vid}.") or a.key[1] == f"k{vid}")
                       for a in all_atoms(delta)) and not delta.is_vec():
                d["mode"] = "ind"
                d["step"] = delta
                return True
            d["noind"] = True
        if d["mode"] == "mu" and d.get("hint") is None and not d.get("nohint") \
                and self.np.is_scalar(init) and not isinstance(init, (bool, float)):
            if self.np.sign_of(st, init) in ("pos",) :
                d["hint"] = "pos"
                return True
            d["nohint"] = True
        elif d.get("hint") == "pos" and not d.get("hint_ok"):
            if self.np.all_leaves_pos(b):
                d["hint_ok"] = True
                return False
            d["hint"] = None
            d["nohint"] = True
            return True
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported(f"expression {type(e).__name__}")
        return m(e, st, ctx)

    def e_Constant(self, e, st, ctx):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        return v

    def e_Name(self, e, st, ctx):
        return self.lookup(st, ctx, e.id)

    def e_Tuple(self, e, st, ctx):
        return tuple(self.elts(e.elts, st, ctx))

    def elts(self, es, st, ctx):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iter_items(st, self.ev(x.value, st, ctx))
            else:
                out.append(self.ev(x, st, ctx))
        return out

    def e_List(self, e, st, ctx):
        return ListV(self.new(st, tuple(self.elts(e.elts, st, ctx))))

    def e_Set(self, e, st, ctx):
        return ListV(self.new(st, tuple(self.elts(e.elts, st, ctx))), "set")

    def e_Dict(self, e, st, ctx):
        d = DictEntry()
        for k, v in zip(e.keys, e.values):
            if k is None:
                other = self.ev(v, st, ctx)
                d.update(self.np.dict_items(self, st, other))
            else:
                d[self.np.hashable(self, self.ev(k, st, ctx))] = self.ev(v, st, ctx)
        return DictV(self.new(st, d))

    def e_Lambda(self, e, st, ctx):
        return self.mkfunc(e, st, ctx, "<lambda>")

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, st, ctx)
                parts.append(self.np.fmt(self, st, v, p))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Opaque(("fstr",) + tuple(self.np.term(self, st, p) for p in parts), note="str")

    def e_FormattedValue(self, e, st, ctx):
        return self.np.fmt(self, st, self.ev(e.value, st, ctx), e)

    def e_BinOp(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        b = self.ev(e.right, st, ctx)
        return self.np.binop(self, st, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, st, ctx):
        v = self.ev(e.operand, st, ctx)
        op = type(e.op).__name__
        if op == "Not":
            return not_(self.truth(st, v))
        return self.np.unary(self, st, op, v)

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, ctx)
            if i == len(e.values) - 1:
                return v
            c = self.truth(s, v)
            if isand:
                return self.branch(s, c, lambda z: go(i + 1, z), lambda z: self.falsy(z, v))
            return self.branch(s, c, lambda z: self.truthy(z, v), lambda z: go(i + 1, z))

        return go(0, st)

    def falsy(self, st, v):
        if is_truthlike(v):
            return False
        return self.prune(st, v)

    def truthy(self, st, v):
        if is_truthlike(v):
            return True
        return self.prune(st, v)

    def e_IfExp(self, e, st, ctx):
        c = self.truth(st, self.ev(e.test, st, ctx))
        return self.branch(st, c, lambda s: self.ev(e.body, s, ctx), lambda s: self.ev(e.orelse, s, ctx))

    def e_Compare(self, e, st, ctx):
        left = self.ev(e.left, st, ctx)

        def go(i, s, l):
            r = self.ev(e.comparators[i], s, ctx)
            v = self.np.compare(self, s, type(e.ops[i]).__name__, l, r)
            if i == len(e.ops) - 1:
                return v
            c = self.truth(s, v)
            return self.branch(s, c, lambda z: go(i + 1, z, r), lambda z: False)

        return go(0, st, left)

    def e_Attribute(self, e, st, ctx):
        o = self.ev(e.value, st, ctx)
        self.where = (ctx.module, e.lineno)
        return self.getattr(st, o, e.attr, ctx)

    def e_Subscript(self, e, st, ctx):
        o = self.ev(e.value, st, ctx)
        i = self.ev_index(e.slice, st, ctx)
        self.where = (ctx.module, e.lineno)
        return self.getitem(st, o, i)

    def ev_index(self, e, st, ctx):
        if isinstance(e, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, st, ctx)
            return SliceV(f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, st, ctx) for x in e.elts)
        return self.ev(e, st, ctx)

    def e_Slice(self, e, st, ctx):
        return self.ev_index(e, st, ctx)

    def e_Starred(self, e, st, ctx):
        self.unsupported("starred")

    def e_Call(self, e, st, ctx):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.mk_super(st, ctx)
        f = self.ev(e.func, st, ctx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iter_items(st, self.ev(a.value, st, ctx))
            else:
                args.append(self.ev(a, st, ctx))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.np.dict_items(self, st, self.ev(k.value, st, ctx)))
            else:
                kw[k.arg] = self.ev(k.value, st, ctx)
        self.where = (ctx.module, e.lineno)
        self.stats["callsites"].add((ctx.module, e.lineno, e.col_offset))
        if isinstance(f, Model) and f.name in ("locals", "globals", "vars") and not args:
            fr = self.modules[ctx.module].eid if f.name == "globals" else ctx.frame
            return DictV(self.new(st, DictEntry(st.heap[fr])))
        r = self.call(st, f, args, kw)
        self.where = (ctx.module, e.lineno)
        return r

    def mk_super(self, st, ctx):
        c = ctx
        cell = c.cls
        if cell is None or cell[0] is None:
            self.unsupported("super() outside class")
        f = ctx.func
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        obj = st.heap[ctx.frame].get(names[0]) if names else None
        return SuperV(cell[0], obj)

    def comp(self, e, st, ctx, emit):
        """comprehension over concrete iterables, in a fresh scope"""
        fr = self.new(st, {})
        self.meta[fr] = (ctx.frame, ctx.module, "func")
        c2 = Ctx(fr, ctx.module, ctx.func, ctx.cls)

        def go(gi, s):
            if gi == len(e.generators):
                emit(s, c2)
                return
            g = e.generators[gi]
            it = self.ev(g.iter, s, c2 if gi else c2)
            items = self.try_items(s, it)
            if items is None:
                raise _SymComp(it, g)
            if isinstance(items, Phi):
                raise _Fork(items.cond)
            for x in items:
                self.assign(g.target, x, s, c2)
                ok = True
                for cond in g.ifs:
                    c = self.decide(s, self.truth(s, self.ev(cond, s, c2)))
                    if c is None:
                        raise _Fork(self.truth(s, self.ev(cond, s, c2)))
                    if c is False:
                        ok = False
                        break
                if ok:
                    go(gi + 1, s)

        go(0, st)

    def forking(self, st, f):
        """f(st), evaluated again under each outcome of a condition it cannot do without"""
        before = st.fork(st.guard)
        try:
            return f(st)
        except _Fork as x:
            cond = x.cond
        st.assign(before)
        return self.branch(st, cond, lambda s: self.forking(s, f), lambda s: self.forking(s, f))

    def e_ListComp(self, e, st, ctx):
        return self.forking(st, lambda s: self.list_comp(e, s, ctx))

    def e_SetComp(self, e, st, ctx):
        return self.forking(st, lambda s: self.set_comp(e, s, ctx))

    def e_DictComp(self, e, st, ctx):
        return self.forking(st, lambda s: self.dict_comp(e, s, ctx))

    def list_comp(self, e, st, ctx):
        out = []
        try:
            self.comp(e, st, ctx, lambda s, c: out.append(self.ev(e.elt, s, c)))
        except _SymComp as sc:
            return self.np.sym_comprehension(self, st, ctx, e, sc)
        return ListV(self.new(st, tuple(out)))

    def e_GeneratorExp(self, e, st, ctx):
        return self.e_ListComp(e, st, ctx)

    def set_comp(self, e, st, ctx):
        out = []
        self.comp(e, st, ctx, lambda s, c: out.append(self.ev(e.elt, s, c)))
        u = []
        for x in out:
            if not any(same(x, y) for y in u):
                u.append(x)
        return ListV(self.new(st, tuple(u)), "set")

    def dict_comp(self, e, st, ctx):
        d = DictEntry()

        def emit(s, c):
            k = self.np.hashable(self, self.ev(e.key, s, c))
            d[k] = self.ev(e.value, s, c)

        # conditional membership (k in kwargs) needs decided filters
        self.comp(e, st, ctx, emit)
        return DictV(self.new(st, d))

    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        v = self.prune(st, v)
        if isinstance(v, Phi):
            return or_(and_(v.cond, self.truth(st, v.a)), and_(not_(v.cond), self.truth(st, v.b)))
        if is_truthlike(v):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, float):
            return True
        if isinstance(v, NF):
            return cmp_(v, {NEG, POS})
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, (ListV, DictV, V.SArr, Arr, RangeV)):
            return self.np.truth(self, st, v)
        if isinstance(v, Obj):
            f = self.find(st, v.cls, "__bool__")
            if f is not UNDEF:
                return self.truth(st, self.call(st, Bound(f, v), [], {}))
            f = self.find(st, v.cls, "__len__")
            if f is not UNDEF:
                return self.truth(st, self.call(st, Bound(f, v), [], {}))
            return True
        if isinstance(v, EnumVal):
            return self.truth(st, v.value)
        if isinstance(v, Opaque):
            if v.note == "fn":
                return True
            return boolean(("truth", v.term))
        return True

    # ------------------------------------------------------------- attributes
    def find(self, st, cls, name):
        for c in cls.mro:
            if isinstance(c, Cls):
                v = st.heap[c.cid].get(name, UNDEF)
                if v is not UNDEF:
                    return v
        return UNDEF

    def missing(self, st, o, name):
        self.eff(st, "attributeerror", repr(o), name)
        self.raise_(st, ExcV("AttributeError", (f"{o!r} has no attribute {name}",)))

    def is_descr(self, st, v):
        return isinstance(v, Obj) and self.find(st, v.cls, "__get__") is not UNDEF

    def getattr(self, st, o, name, ctx=None, default=UNDEF):
        o = self.prune(st, o)
        if isinstance(o, Phi):
            return self.branch(st, o.cond, lambda s: self.getattr(s, o.a, name, ctx),
                               lambda s: self.getattr(s, o.b, name, ctx))
        if name.startswith("__") and not name.endswith("__") and ctx is not None and ctx.cls:
            name = f"_{ctx.cls[1].lstrip('_')}{name}"
        if isinstance(o, Obj):
            cv = self.find(st, o.cls, name)
            if isinstance(cv, Prop):
                return self.call(st, cv.fget, [o], {})
            if self.is_descr(st, cv) and self.find(st, cv.cls, "__set__") is not UNDEF:
                return self.call(st, Bound(self.find(st, cv.cls, "__get__"), cv), [o, o.cls], {})
            iv = st.heap[o.oid].get(name, UNDEF)
            if iv is not UNDEF:
                return self.prune(st, iv)
            if cv is not UNDEF:
                return self.bind(st, cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return DictV(self.new(st, DictEntry(st.heap[o.oid])))
            ga = self.find(st, o.cls, "__getattr__")
            if ga is not UNDEF:
                return self.call(st, Bound(ga, o), [name], {})
            self.missing(st, o, name)
        if isinstance(o, Cls):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__module__":
                return o.module
            if name == "__mro__":
                return o.mro
            if name == "__bases__":
                return o.bases
            if name == "__doc__":
                return None
            if name == "__dict__":
                return DictV(self.new(st, DictEntry(st.heap[o.cid])))
            cv = self.find(st, o, name)
            if cv is not UNDEF:
                return self.bind(st, cv, None, o)
            if name in ("class_type",):
                return Ext(f"numba.class_type.{o.name}")
            if name == "__init_subclass__":
                return Model("noop", lambda itp, s, a, k: None)
            self.missing(st, o, name)
        if isinstance(o, Mod):
            v = st.heap[o.eid].get(name, UNDEF)
            if v is not UNDEF:
                return self.prune(st, v)
            sub = f"{o.name}.{name}"
            if sub in self.modules:
                return self.modules[sub]
            ga = st.heap[o.eid].get("__getattr__", UNDEF)
            if ga is not UNDEF:
                return self.call(st, ga, [name], {})
            self.missing(st, o, name)
        if isinstance(o, SuperV):
            return self.super_attr(st, o, name)
        if isinstance(o, Func):
            d = st.heap.get(("fattr", id(o.node), o.frame, o.name), {})
            if name in d:
                return d[name]
            if name in ("__name__", "__qualname__"):
                return o.name.split(".")[-1]
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.module
            if name == "py_func":
                return o
            if name == "__wrapped__":
                self.missing(st, o, name)
            self.missing(st, o, name)
        if isinstance(o, EnumVal):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
            cv = self.find(st, o.cls, name)
            if cv is not UNDEF:
                return self.bind(st, cv, o, o.cls)
            self.missing(st, o, name)
        return self.np.getattribute(self, st, o, name)

    def super_attr(self, st, o, name):
        obj = o.obj
        tcls = obj if isinstance(obj, Cls) else obj.cls
        mro = tcls.mro
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if isinstance(c, Cls):
                v = st.heap[c.cid].get(name, UNDEF)
                if v is not UNDEF:
                    if name == "__init_subclass__" or isinstance(v, ClassM):
                        f = v.func if isinstance(v, ClassM) else v
                        return Bound(f, tcls)
                    if isinstance(obj, Cls):
                        return self.bind(st, v, None, tcls)
                    return self.bind(st, v, obj, tcls)
        if name == "__init__":
            def init0(itp, s, a, k):
                if k:
                    itp.raise_(s, ExcV("TypeError", ("object.__init__ takes no keyword arguments",)))
                return None
            return Model("object.__init__", init0)
        if name == "__init_subclass__":
            def isc(itp, s, a, k):
                if k:
                    itp.raise_(s, ExcV("TypeError", ("__init_subclass__ takes no keyword arguments",)))
                return None
            return Model("object.__init_subclass__", isc)
        if name == "__repr__":
            return Model("object.__repr__", lambda itp, s, a, k: repr(obj))
        self.missing(st, obj, name)

    def bind(self, st, v, obj, cls):
        if isinstance(v, Func):
            return Bound(v, obj) if obj is not None else v
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, Prop):
            return self.call(st, v.fget, [obj], {}) if obj is not None else v
        if isinstance(v, Phi):
            return mk_phi(v.cond, self.bind(st, v.a, obj, cls), self.bind(st, v.b, obj, cls))
        if self.is_descr(st, v):
            return self.call(st, Bound(self.find(st, v.cls, "__get__"), v), [obj, cls], {})
        return v

    def setattr(self, st, o, name, v):
        o = self.prune(st, o)
        if isinstance(o, Phi):
            self.branch(st, o.cond, lambda s: self.setattr(s, o.a, name, v),
                        lambda s: self.setattr(s, o.b, name, v))
            return
        if isinstance(o, Obj):
            cv = self.find(st, o.cls, name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    self.raise_(st, ExcV("AttributeError", ("can't set attribute",)))
                self.call(st, cv.fset, [o, v], {})
                return
            kind = self.jit_specs.get(o.cls.cid, {}).get(name)
            if kind and (is_truthlike(v) or not isinstance(v, (Arr, SArr, ListV, tuple, Opaque))):
                v = self.truth(st, v) if kind == "bool" else v if is_truthlike(v) else self.np.A.cast(kind, v)
            d = dict(st.heap[o.oid])
            d[name] = v
            st.heap[o.oid] = d
            self.eff(st, "setattr", o, name, v)
        elif isinstance(o, Cls):
            d = dict(st.heap[o.cid])
            d[name] = v
            st.heap[o.cid] = d
        elif isinstance(o, Mod):
            d = dict(st.heap[o.eid])
            d[name] = v
            st.heap[o.eid] = d
        elif isinstance(o, Func):
            key = ("fattr", id(o.node), o.frame, o.name)
            d = dict(st.heap.get(key, {}))
            d[name] = v
            st.heap[key] = d
        elif isinstance(o, Ext):
            self.ext_attr_sets[f"{o.path}.{name}"] = v
        else:
            self.np.setattr(self, st, o, name, v)

    # ------------------------------------------------------------------ items
    def getitem(self, st, o, i):
        return self.np.getitem(self, st, o, i)

    def setitem(self, st, o, i, v):
        return self.np.setitem(self, st, o, i, v)

    def try_items(self, st, v):
        """list of items when the length is concrete, else None"""
        return self.np.items(self, st, v)

    def iter_items(self, st, v):
        r = self.try_items(st, v)
        if r is None or isinstance(r, Phi):
            self.unsupported(f"iteration over {v!r} of unknown length")
        return r

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        f = self.prune(st, f)
        if isinstance(f, Phi):
            return self.branch(st, f.cond, lambda s: self.call(s, f.a, args, kw),
                               lambda s: self.call(s, f.b, args, kw))
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw)
        if isinstance(f, Bound):
            return self.call(st, f.func, [f.obj] + list(args), kw)
        if isinstance(f, Model):
            return f.fn(self, st, list(args), dict(kw))
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, ExcCls):
            return ExcV(f.name, tuple(self.np.term(self, st, a) for a in args))
        if isinstance(f, (StaticM, ClassM)):
            return self.call(st, f.func, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(st, f.func, list(f.args) + list(args), k)
        if isinstance(f, Obj):
            m = self.find(st, f.cls, "__call__")
            if m is not UNDEF:
                return self.call(st, Bound(m, f), args, kw)
        if isinstance(f, Opaque):
            if f.call is not None:
                return f.call(self, st, f, list(args), dict(kw))
        if isinstance(f, Ext):
            return self.np.call_ext(self, st, f, list(args), dict(kw))
        if isinstance(f, (Opaque,)):
            return self.np.opaque_call(self, st, f, list(args), dict(kw))
        if f is None or isinstance(f, (int, str, Fraction, tuple)):
            self.raise_(st, ExcV("TypeError", ("not callable",)))
        self.unsupported(f"call of {f!r}")

    def instantiate(self, st, cls, args, kw):
        if cls.enum:
            for k, v in st.heap[cls.cid].items():
                if isinstance(v, EnumVal) and args and same(v.value, args[0]):
                    return v
            self.unsupported("enum lookup")
        if any(isinstance(c, ExcCls) for c in cls.mro):
            return ExcV(cls, tuple(self.np.term(self, st, a) for a in args))
        oid = self.new(st, {})
        o = Obj(oid, cls)
        init = self.find(st, cls, "__init__")
        if init is not UNDEF:
            self.call(st, Bound(init, o), args, kw)
        elif args or kw:
            self.raise_(st, ExcV("TypeError", (f"{cls.name}() takes no arguments",)))
        return o

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(st, ExcV("TypeError", (f"{f.name}() takes {len(pos)} positional arguments",)))
        for n, v in zip(pos, args):
            vars_[n] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in vars_:
                if n in kw:
                    self.raise_(st, ExcV("TypeError", (f"multiple values for {n}",)))
                continue
            if n in kw:
                vars_[n] = kw.pop(n)
            elif i >= len(pos) - nd:
                vars_[n] = f.defaults[i - (len(pos) - nd)]
            else:
                self.raise_(st, ExcV("TypeError", (f"{f.name}() missing argument {n}",)))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif d is not UNDEF:
                vars_[x.arg] = d
            else:
                self.raise_(st, ExcV("TypeError", (f"{f.name}() missing keyword {x.arg}",)))
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = DictV(self.new(st, DictEntry(kw)))
        elif kw:
            self.raise_(st, ExcV("TypeError", (f"{f.name}() got unexpected keyword {sorted(kw)}",)))
        return vars_

    def call_func(self, st, f, args, kw):
        s = self.summaries.get(f.qual)
        if s is None and self.where[0] != f.module:
            s = self.module_summaries.get(f.module)
        if s is not None:
            r = s(self, st, f, args, kw)
            if r is not NotImplemented:
                return r
        self.stats["calls"] += 1
        self.stats["functions"].add(f.qual)
        if self.depth > MAX_DEPTH:
            self.unsupported("call depth")
        vars_ = self.bind_args(st, f, args, kw)
        fr = self.new(st, vars_)
        self.meta[fr] = (f.frame, f.module, "func")
        ctx = Ctx(fr, f.module, f, f.owner)
        save = self.where
        loops = self.loops
        self.depth += 1
        base = st.guard
        try:
            if isinstance(f.node, ast.Lambda):
                self.where = (f.module, f.node.lineno)
                return self.ev(f.node.body, st, ctx)
            if _is_gen(f.node):
                return self.run_generator(st, f, ctx)
            self.declare_locals(f.node, st, ctx)
            end = self.exec_block(f.node.body, State(dict(st.heap), st.guard), ctx)
            outs = list(ctx.returns)
            if end is not None:
                outs.append((end, None))
            r = self.merge(outs)
            if r is None:
                raise Dead
            if len(outs) > 1 and r[0].guard is not base and not self.lost(base, outs):
                r[0].guard = base
            st.assign(r[0])
            return r[1]
        finally:
            self.depth -= 1
            self.where = save
            self.loops = loops

    def lost(self, base, outs):
        """did some path raise or diverge? (guards of exits cover base otherwise)"""
        g = or_(*[o[0].guard for o in outs])
        if g is base:
            return False
        if isinstance(base, bool):
            return not (g is True or not sat(not_(g)))
        return not entails(base, g)

    def run_generator(self, st, f, ctx):
        """generator functions with straight-line/for yields: collected eagerly"""
        lid = self.new(st, ())
        ctx.yield_to = ListV(lid)
        r = self.exec_block(f.node.body, st.fork(), ctx)
        outs = [(s, None) for s, _ in ctx.returns]
        if r is not None:
            outs.append((r, None))
        m = self.merge(outs)
        if m is None:
            raise Dead
        st.assign(m[0])
        return ctx.yield_to

    def e_Yield(self, e, st, ctx):
        v = None if e.value is None else self.ev(e.value, st, ctx)
        self.np.list_append(self, st, ctx.yield_to, v)
        return None

    def e_YieldFrom(self, e, st, ctx):
        for v in self.iter_items(st, self.ev(e.value, st, ctx)):
            self.np.list_append(self, st, ctx.yield_to, v)
        return None

    def declare_locals(self, node, st, ctx):
        return


class Cell:
    """name declared global / nonlocal: forwards to another frame"""

    def __init__(self, frame):
        self.frame = frame

    def __eq__(self, o):
        return isinstance(o, Cell) and o.frame == self.frame

    def __hash__(self):
        return hash(("cell", self.frame))


class DictEntry(dict):
    """heap content of a dict object (ordered)"""


class _Fork(Exception):
    """evaluation has to be repeated separately for cond and its negation"""
    def __init__(self, cond):
        self.cond = cond


class _SymComp(Exception):
    def __init__(self, it, gen):
        self.it, self.gen = it, gen


_gen_cache = {}


def _is_gen(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            todo += list(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r
