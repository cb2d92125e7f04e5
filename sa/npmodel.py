"""Meaning of Python builtins and of the external libraries the package uses
(numpy, math, functools, numba, scipy, warnings ...), on abstract values."""
from __future__ import annotations

import ast
import string
from fractions import Fraction

from . import arrays as A
from . import scalars as S
from .nf import (NEG, NF, POS, ZERO, F, abs_nf, and_, app, boolean, cmp_, entails, not_, or_, show, sym)
from .scalars import INF, NAN, is_scalar, num_norm
from .values import (UNDEF, Arr, Bound, ClassM, Cls, Dead, DictV, EnumVal, ExcCls, ExcV, Ext, Func,
                     IterV, ListV, Mod, Model, Obj, Opaque, Partial, Phi, Prop, RangeV, SArr,
                     SContent, SliceV, StaticM, SuperV, Unsupported, is_truthlike, leaves, lift,
                     mk_phi, same)

# --------------------------------------------------------------------- terms


def term(itp, st, v):
    """hashable identity of a value"""
    if isinstance(v, bool) or v is None or isinstance(v, (str, F)):
        return v
    if isinstance(v, (int, Fraction)):
        return NF.const(v)
    if isinstance(v, NF):
        return v
    if isinstance(v, float):
        return str(v)
    if isinstance(v, Phi):
        a, b = term(itp, st, v.a), term(itp, st, v.b)
        return a if a == b else ("phi", v.cond, a, b)
    if isinstance(v, tuple):
        return tuple(term(itp, st, x) for x in v)
    if isinstance(v, Arr):
        cs = A.cells(itp, st, v)
        if v.shape == ():
            return term(itp, st, cs[0])
        return ("arr", v.shape, v.symax) + tuple(term(itp, st, c) for c in cs)
    if isinstance(v, ListV):
        e = st.heap[v.lid]
        return ("list",) + freeze_t(itp, st, e)
    if isinstance(v, SArr):
        return freeze_sarr(itp, st, v)
    if isinstance(v, Opaque):
        return ("opq", v.term)
    if isinstance(v, Func):
        return ("fn", v.qual)
    if isinstance(v, Bound):
        return ("bound", term(itp, st, v.func), term(itp, st, v.obj))
    if isinstance(v, Obj):
        return ("obj", v.cls.name, v.oid)
    if isinstance(v, Cls):
        return ("cls", v.name)
    if isinstance(v, EnumVal):
        return ("enum", v.cls.name, v.name)
    if isinstance(v, SliceV):
        return ("slice", term(itp, st, v.lo), term(itp, st, v.hi), term(itp, st, v.step))
    if isinstance(v, (Ext, Mod)):
        return ("ext", getattr(v, "path", getattr(v, "name", "")))
    if isinstance(v, DictV):
        return ("dict",) + tuple((k, term(itp, st, x)) for k, x in st.heap[v.did].items())
    return ("v", repr(v))


def freeze_t(itp, st, e):
    if type(e) is tuple:
        return tuple(term(itp, st, x) for x in e)
    return (freeze(e),)


def freeze(e):
    if isinstance(e, SContent):
        return ("sc", _fz(e.base), tuple(_fz(x) for x in e.stores))
    return _fz(e)


def _fz(e):
    if isinstance(e, tuple):
        return tuple(_fz(x) for x in e)
    if isinstance(e, (NF, str, int, Fraction, F, frozenset)) or e is None:
        return e
    return repr(e)


def freeze_sarr(itp, st, v):
    return ("sarr", freeze(st.heap[v.sid]), v.length, v.lo, v.hi)


def val(itp, st, v):
    """numeric content: NF / number / gate of those (single-cell arrays are read)"""
    v = itp.prune(st, v)
    if isinstance(v, Phi):
        return mk_phi(v.cond, val(itp, st, v.a), val(itp, st, v.b))
    if isinstance(v, Arr):
        if v.shape == ():
            return A.cells(itp, st, v)[0]
        return term(itp, st, v)
    if isinstance(v, Opaque) and v.note not in ("fn", "str"):
        return NF.of(app("val", v.term, kind="v" if v.note == "vec" else "s"))
    return v


def nf(itp, st, v):
    x = val(itp, st, v)
    return lift(lambda y: NF.of(S.tonum(y)) if not isinstance(y, float) else y, x)


# ----------------------------------------------------------------- operators


def binop(itp, st, op, a, b):
    a, b = itp.prune(st, a), itp.prune(st, b)
    if op == "MatMult":
        return A.contract(itp, st, a, b)
    for x, left in ((a, True), (b, False)):
        if isinstance(x, Phi) and not is_scalar(x) and not any(isinstance(l, Arr) for l in leaves(x)):
            o = b if left else a
            return itp.branch(
                st, x.cond,
                lambda s: binop(itp, s, op, *((x.a, o) if left else (o, x.a))),
                lambda s: binop(itp, s, op, *((x.b, o) if left else (o, x.b))))
    if isinstance(a, str):
        if op == "Mod":
            return str_mod(itp, st, a, b)
        if op == "Add" and isinstance(b, str):
            return a + b
        if op == "Mult":
            return a * A.as_int(itp, st, b)
        return Opaque(("strop", op, a, term(itp, st, b)), note="str")
    if isinstance(b, str) or (isinstance(a, Opaque) and a.note == "str") or (isinstance(b, Opaque) and b.note == "str"):
        return Opaque(("strop", op, term(itp, st, a), term(itp, st, b)), note="str")
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if isinstance(a, tuple) and op == "Mult":
        return a * A.as_int(itp, st, b)
    if isinstance(b, tuple) and op == "Mult" and not isinstance(a, Arr):
        return b * A.as_int(itp, st, a)
    if isinstance(a, ListV):
        if op == "Add" and isinstance(b, ListV):
            return ListV(itp.new(st, list_content(itp, st, a) + list_content(itp, st, b)))
        if op == "Mult" and not isinstance(b, Arr):
            return ListV(itp.new(st, list_content(itp, st, a) * A.as_int(itp, st, b)))
        if a.kind == "set" and isinstance(b, ListV):
            xs, ys = list_content(itp, st, a), list_content(itp, st, b)
            inn = lambda x, zs: any(same(x, z) for z in zs)
            r = {"Sub": [x for x in xs if not inn(x, ys)], "BitAnd": [x for x in xs if inn(x, ys)],
                 "BitOr": list(xs) + [y for y in ys if not inn(y, xs)]}.get(op)
            if r is not None:
                return ListV(itp.new(st, tuple(r)), "set")
    if isinstance(b, ListV) and op == "Mult" and isinstance(a, int):
        return ListV(itp.new(st, list_content(itp, st, b) * a))
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = dunder(itp, st, op, a, b)
        if r is not UNDEF:
            return r
    if isinstance(a, EnumVal):
        a = a.value
    if isinstance(b, EnumVal):
        b = b.value
    if op in ("Div", "FloorDiv", "Mod"):
        guard_div(itp, st, b)
    if a is None or b is None:
        itp.eff(st, "typeerror", "arithmetic on None")
        itp.raise_(st, ExcV("TypeError", ("unsupported operand",)))

    def f(x, y):
        try:
            return S.arith(op, x, y)
        except (S.NotNumber, TypeError):
            itp.unsupported(f"{x!r} {op} {y!r}")
    try:
        return A.elementwise(itp, st, f, a, b)
    except ZeroDivisionError:
        itp.raise_(st, ExcV("ZeroDivisionError"))


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "BitOr": "or", "BitAnd": "and"}


def dunder(itp, st, op, a, b):
    n = DUNDER.get(op)
    if n and isinstance(a, Obj):
        m = itp.find(st, a.cls, f"__{n}__")
        if m is not UNDEF:
            return itp.call(st, Bound(m, a), [b], {})
    return UNDEF


def guard_div(itp, st, b):
    """record divisions whose denominator is not visibly nonzero"""
    if isinstance(b, (int, Fraction)):
        return
    d = b
    if isinstance(b, Arr):
        if b.ndim:
            for c in A.cells(itp, st, b):
                for l in leaves(c):
                    if isinstance(l, NF):
                        itp.eff(st, "vdiv", l)
            return
        d = A.cells(itp, st, b)[0]
    for l in leaves(d):
        if isinstance(l, NF):
            itp.eff(st, "div", l)


def unary(itp, st, op, v):
    v = itp.prune(st, v)
    if op == "USub":
        return A.elementwise(itp, st, lambda x: S.negate(x), v)
    if op == "UAdd":
        return v
    if op == "Invert":
        return A.elementwise(itp, st, lambda x: not_(x) if is_truthlike(x) else ~x, v)
    itp.unsupported(f"unary {op}")


def ident(a, b):
    if isinstance(a, Phi) or isinstance(b, Phi):
        r = lift(lambda x, y: ident(x, y), a, b)
        return S.phi_bool(r)
    if a is None or b is None:
        return a is b
    if is_truthlike(a) and is_truthlike(b):
        return S.compare("Eq", a, b)
    if isinstance(a, (Arr, SArr, ListV, DictV)) or isinstance(b, (Arr, SArr, ListV, DictV)):
        return type(a) is type(b) and a == b
    if is_scalar(a) and is_scalar(b) and (isinstance(a, NF) or isinstance(b, NF)):
        return False
    return same(a, b)


def compare(itp, st, op, a, b):
    a, b = itp.prune(st, a), itp.prune(st, b)
    if op in ("Is", "IsNot"):
        r = ident(a, b)
        return r if op == "Is" else not_(r)
    if op in ("In", "NotIn"):
        r = contains(itp, st, b, a)
        return r if op == "In" else not_(itp.truth(st, r))
    for x, left in ((a, True), (b, False)):
        if isinstance(x, Phi) and not is_scalar(x):
            o = b if left else a
            return itp.branch(
                st, x.cond,
                lambda s: compare(itp, s, op, *((x.a, o) if left else (o, x.a))),
                lambda s: compare(itp, s, op, *((x.b, o) if left else (o, x.b))))
    if isinstance(a, EnumVal) and isinstance(b, EnumVal) and op in ("Eq", "NotEq"):
        return (a == b) == (op == "Eq")
    if isinstance(a, EnumVal):
        a = a.value
    if isinstance(b, EnumVal):
        b = b.value
    if (is_scalar(a) or isinstance(a, (Arr, SArr))) and (is_scalar(b) or isinstance(b, (Arr, SArr, ListV, tuple))) \
            or isinstance(b, (Arr, SArr)) and isinstance(a, (ListV, tuple)) or isinstance(b, (Arr, SArr)) and is_scalar(a):
        if isinstance(b, (ListV, tuple)) and is_scalar(a):
            return op == "NotEq"
        return A.elementwise(itp, st, lambda x, y: S.compare(op, x, y), a, b)
    if op in ("Eq", "NotEq"):
        r = equal(itp, st, a, b)
        return r if op == "Eq" else not_(r)
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple_cmp(itp, st, op, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if all(is_scalar(val(itp, st, x)) for x in (a, b)):
            return lift(lambda x, y: S.compare(op, x, y), val(itp, st, a), val(itp, st, b))
    if a is None or b is None:
        itp.eff(st, "typeerror", "ordering comparison with None")
        itp.raise_(st, ExcV("TypeError", ("'<' not supported",)))
    itp.unsupported(f"comparison {a!r} {op} {b!r}")


def tuple_cmp(itp, st, op, a, b):
    if not a or not b:
        return {"Lt": len(a) < len(b), "LtE": len(a) <= len(b), "Gt": len(a) > len(b), "GtE": len(a) >= len(b)}[op]
    strict = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[op]
    h = itp.truth(st, compare(itp, st, strict, a[0], b[0]))
    e = itp.truth(st, compare(itp, st, "Eq", a[0], b[0]))
    if e is False:
        return h
    return or_(h, and_(e, tuple_cmp(itp, st, op, a[1:], b[1:])))


def equal(itp, st, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[itp.truth(st, compare(itp, st, "Eq", x, y)) for x, y in zip(a, b)])
    if isinstance(a, ListV) and isinstance(b, ListV):
        x, y = itp.try_items(st, a), itp.try_items(st, b)
        if x is not None and y is not None:
            if a.kind == "set" or b.kind == "set":
                return len(x) == len(y) and all(any(same(p, q) for q in y) for p in x)
            return equal(itp, st, tuple(x), tuple(y))
    if isinstance(a, DictV) and isinstance(b, DictV):
        x, y = st.heap[a.did], st.heap[b.did]
        if set(x) != set(y):
            return False
        return and_(*[itp.truth(st, compare(itp, st, "Eq", x[k], y[k])) for k in x])
    if isinstance(a, Obj):
        m = itp.find(st, a.cls, "__eq__")
        if m is not UNDEF:
            r = itp.call(st, Bound(m, a), [b], {})
            if not isinstance(r, Ext):
                return itp.truth(st, r)
        if not isinstance(b, Obj):
            return False
    if isinstance(b, Obj) and not isinstance(a, Obj):
        m = itp.find(st, b.cls, "__eq__")
        if m is not UNDEF:
            r = itp.call(st, Bound(m, b), [a], {})
            if not isinstance(r, Ext):
                return itp.truth(st, r)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True if a.term == b.term else boolean(("eq", a.term, b.term))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is None or b is None:
            return False
        return boolean(("eq", term(itp, st, a), term(itp, st, b)))
    return same(a, b)


def contains(itp, st, c, x):
    c = itp.prune(st, c)
    if isinstance(c, Phi):
        return or_(and_(c.cond, itp.truth(st, contains(itp, st, c.a, x))),
                   and_(not_(c.cond), itp.truth(st, contains(itp, st, c.b, x))))
    if isinstance(c, str):
        return isinstance(x, str) and x in c
    if isinstance(c, DictV):
        d = st.heap[c.did]
        k = hashable(itp, x)
        if k not in d:
            return False
        return present(d[k])
    if isinstance(c, Obj):
        m = itp.find(st, c.cls, "__contains__")
        if m is not UNDEF:
            return itp.truth(st, itp.call(st, Bound(m, c), [x], {}))
    items = itp.try_items(st, c)
    if items is None:
        return boolean(("in", term(itp, st, x), term(itp, st, c)))
    return or_(*[itp.truth(st, equal_or_cmp(itp, st, x, y)) for y in items]) if items else False


def equal_or_cmp(itp, st, x, y):
    if ident(x, y) is True:
        return True
    return compare(itp, st, "Eq", x, y)


def present(v):
    """formula: a dict slot holds a value"""
    if isinstance(v, Phi):
        return or_(and_(v.cond, present(v.a)), and_(not_(v.cond), present(v.b)))
    return v is not UNDEF


def truth(itp, st, v):
    if isinstance(v, Arr):
        if v.ndim == 0 or (v.symax is None and len(v.idx) == 1):
            return itp.truth(st, A.cells(itp, st, v)[0])
        if v.symax is not None:
            c = A.cells(itp, st, v)
            if len(c) == 1:
                return itp.truth(st, lift(lambda x: x if is_truthlike(x) else boolean(("vtruth", NF.of(x))), c[0]))
        itp.raise_(st, ExcV("ValueError", ("truth value of an array is ambiguous",)))
    if isinstance(v, ListV):
        e = st.heap[v.lid]
        return content_truth(itp, st, e)
    if isinstance(v, DictV):
        return or_(*[present(x) for x in st.heap[v.did].values()]) if st.heap[v.did] else False
    if isinstance(v, RangeV):
        n = length(itp, st, v)
        return itp.truth(st, n)
    if isinstance(v, SArr):
        return boolean(("vtruth", freeze_sarr(itp, st, v)))
    itp.unsupported("truth value")


def content_truth(itp, st, e):
    from .interp import PhiContent
    if isinstance(e, PhiContent):
        c, a, b = e
        return or_(and_(c, content_truth(itp, st, a)), and_(not_(c), content_truth(itp, st, b)))
    if isinstance(e, SContent):
        n = len_content(e)
        return S.compare("Gt", n, 0)
    return len(e) > 0


# ----------------------------------------------------------------- sequences


def list_content(itp, st, v):
    e = st.heap[v.lid]
    if type(e) is not tuple:
        itp.unsupported("list of unknown length")
    return e


def len_content(e):
    base = NF.of(app("len", freeze(e.base), sign="nonneg"))
    out = base
    for s in e.stores:
        if s[0] == "append":
            out = S.arith("Add", out, 1)
    return out


def list_append(itp, st, v, x):
    from .interp import PhiContent
    e = st.heap[v.lid]

    def add(e):
        if isinstance(e, PhiContent):
            c, a, b = e
            return PhiContent((c, add(a), add(b)))
        if isinstance(e, SContent):
            return SContent(e.base, e.stores + (("append", None, x, st.guard, itp.loops),))
        return e + (x,)
    st.heap[v.lid] = add(e)
    itp.eff(st, "append", v.lid, x)


def list_extend(itp, st, v, xs):
    items = itp.try_items(st, xs)
    if isinstance(items, Phi):
        itp.branch(st, items.cond, lambda s: list_extend(itp, s, v, items.a), lambda s: list_extend(itp, s, v, items.b))
        return
    if items is None:
        itp.unsupported("extend with unknown length")
    for x in items:
        list_append(itp, st, v, x)


def split_content(itp, st, lid, go):
    """evaluate go under each alternative of a gated list content"""
    from .interp import PhiContent
    e = st.heap[lid]
    if isinstance(e, PhiContent):
        c, a, b = e

        def with_(s, alt):
            s.heap[lid] = alt
            return split_content(itp, s, lid, go)
        return True, itp.branch(st, c, lambda s: with_(s, a), lambda s: with_(s, b))
    return False, None


def items(itp, st, v):
    v = itp.prune(st, v)
    from .interp import PhiContent
    if isinstance(v, Phi):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, list):
        return v
    if isinstance(v, ListV):
        e = st.heap[v.lid]
        if type(e) is tuple:
            return list(e)
        if isinstance(e, PhiContent):
            c, a, b = e
            d = itp.decide(st, c)
            if d is not None:
                st.heap[v.lid] = a if d else b
                return items(itp, st, v)
            return Phi(c, _tup(a, itp), _tup(b, itp)) if not any(isinstance(z, SContent) for z in _flat(e)) else None
        return None
    if isinstance(v, RangeV):
        xs = [A.as_int(itp, st, x) for x in (v.start, v.stop, v.step)]
        if all(isinstance(x, int) for x in xs):
            return list(range(*xs))
        if all(isinstance(x, (int, Phi)) and is_scalar(x) and all(isinstance(l, (int, Fraction)) for l in leaves(x)) for x in xs):
            for j, x in enumerate(xs):
                if isinstance(x, Phi):
                    mk = lambda z: RangeV(*[z if q == j else y for q, y in enumerate(xs)])
                    return Phi(x.cond, mk(x.a), mk(x.b))
        return None
    if isinstance(v, Arr):
        if v.symax == 0:
            if not v.shape:
                return None
            itp.unsupported("iteration over the state axis")
        if not v.shape:
            itp.raise_(st, ExcV("TypeError", ("iteration over a 0-d array",)))
        return [A.getitem(itp, st, v, i) for i in range(v.shape[0])]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, DictV):
        return list(st.heap[v.did].keys())
    if isinstance(v, IterV):
        parts = [items(itp, st, p) for p in v.parts]
        if any(p is None or isinstance(p, Phi) for p in parts):
            for j, p in enumerate(parts):
                if isinstance(p, Phi):
                    mk = lambda z: IterV(v.kind, tuple(z if q == j else y for q, y in enumerate(v.parts)), v.start)
                    return Phi(p.cond, mk(p.a), mk(p.b))
            return None
        if v.kind == "enumerate":
            s = A.as_int(itp, st, v.start)
            return [(S.arith("Add", s, i), x) for i, x in enumerate(parts[0])]
        if v.kind == "zip":
            return [tuple(t) for t in zip(*parts)]
        if v.kind == "reversed":
            return parts[0][::-1]
        if v.kind == "iter":
            return parts[0]
    if isinstance(v, Cls) and v.enum:
        return [x for x in st.heap[v.cid].values() if isinstance(x, EnumVal)]
    if isinstance(v, Obj):
        m = itp.find(st, v.cls, "__iter__")
        if m is not UNDEF:
            return items(itp, st, itp.call(st, Bound(m, v), [], {}))
    if isinstance(v, (SArr, Opaque)):
        return None
    if is_scalar(v) or v is None:
        itp.raise_(st, ExcV("TypeError", ("object is not iterable",)))
    itp.unsupported(f"iteration over {v!r}")


def _flat(e):
    from .interp import PhiContent
    if isinstance(e, PhiContent):
        yield from _flat(e[1])
        yield from _flat(e[2])
    else:
        yield e


def _tup(e, itp):
    from .interp import PhiContent
    if isinstance(e, PhiContent):
        return Phi(e[0], _tup(e[1], itp), _tup(e[2], itp))
    return tuple(e)


def length(itp, st, v):
    v = itp.prune(st, v)
    if isinstance(v, Phi):
        return mk_phi(v.cond, length(itp, st, v.a), length(itp, st, v.b))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, ListV):
        return content_len(st.heap[v.lid])
    if isinstance(v, DictV):
        n = 0
        for x in st.heap[v.did].values():
            p = present(x)
            n = S.arith("Add", n, 1 if p is True else Phi(p, 1, 0)) if not isinstance(n, Phi) and p is True else \
                lift(lambda a, b: S.arith("Add", a, b), n, 1 if p is True else Phi(p, 1, 0))
        return n
    if isinstance(v, Arr):
        d = A.dims(v)
        if not d:
            itp.raise_(st, ExcV("TypeError", ("len() of unsized object",)))
        return A.N if d[0] == "n" else d[0]
    if isinstance(v, NF) and v.is_vec():
        return A.N
    if isinstance(v, SArr):
        return sarr_len(v)
    if isinstance(v, RangeV):
        xs = items(itp, st, v)
        if isinstance(xs, list):
            return len(xs)
        return S.arith("Sub", v.stop, v.start)
    if isinstance(v, Obj):
        m = itp.find(st, v.cls, "__len__")
        if m is not UNDEF:
            return itp.call(st, Bound(m, v), [], {})
    if isinstance(v, IterV):
        return length(itp, st, v.parts[0])
    if isinstance(v, Cls) and v.enum:
        return len(items(itp, st, v))
    if isinstance(v, Opaque):
        return NF.of(app("len", v.term, sign="nonneg"))
    itp.raise_(st, ExcV("TypeError", ("object has no len()",)))


def content_len(e):
    from .interp import PhiContent
    if isinstance(e, PhiContent):
        return mk_phi(e[0], content_len(e[1]), content_len(e[2]))
    if isinstance(e, SContent):
        return len_content(e)
    return len(e)


def sarr_len(v):
    if v.lo is None and v.hi is None:
        return v.length
    lo = v.lo if v.lo is not None else 0
    hi = v.hi if v.hi is not None else v.length
    return S.arith("Sub", hi, lo)


def sym_iter(itp, st, it):
    """(length, element function) of an iterable of unknown length"""
    it = itp.prune(st, it)
    if isinstance(it, RangeV):
        step = A.as_int(itp, st, it.step)
        start, stop = nf(itp, st, it.start), nf(itp, st, it.stop)
        if step == 1:
            return S.arith("Sub", stop, start), lambda s, k: S.arith("Add", start, k)
        if step == -1:
            return S.arith("Sub", start, stop), lambda s, k: S.arith("Sub", start, k)
        itp.unsupported("range step")
    if isinstance(it, IterV):
        if it.kind == "enumerate":
            n, e = sym_iter(itp, st, it.parts[0])
            return n, lambda s, k: (S.arith("Add", it.start, k), e(s, k))
        if it.kind == "zip":
            subs = [sym_iter(itp, st, p) for p in it.parts]
            return subs[0][0], lambda s, k: tuple(e(s, k) for _, e in subs)
        if it.kind == "iter":
            return sym_iter(itp, st, it.parts[0])
    if isinstance(it, ListV):
        base = st.heap[it.lid]
        return content_len(base), lambda s, k: list_elem(itp, s, base, k)
    if isinstance(it, SArr):
        return sarr_len(it), lambda s, k: sarr_get(itp, s, it, k)
    if isinstance(it, Opaque):
        return NF.of(app("len", it.term, sign="nonneg")), lambda s, k: opaque_item(itp, s, it, k)
    if isinstance(it, Arr) and it.is_vec:
        c = A.cells(itp, st, it)[0]
        return A.N, lambda s, k: A.component(itp, s, c, k)
    xs = items(itp, st, it)
    if isinstance(xs, list):
        itp.unsupported("loop too long to unroll")
    itp.unsupported(f"iteration over {it!r}")


def list_elem(itp, st, content, k):
    kind = "s"
    if isinstance(content, SContent):
        for s in content.stores:
            pass
        smp = content_sample(content)
        if isinstance(smp, Arr) and smp.is_vec:
            return A.vec(itp, st, NF.of(app("elem", freeze(content), NF.of(k), kind="v")), "elem")
        if isinstance(smp, NF) and smp.is_vec():
            return A.vec(itp, st, NF.of(app("elem", freeze(content), NF.of(k), kind="v")), "elem")
    return NF.of(app("elem", freeze(content), NF.of(k)))


def content_sample(content):
    for s in content.stores:
        return s[2]
    return SAMPLES.get(content.base)


SAMPLES: dict = {}


def sarr_of_list(itp, st, x):
    e = st.heap[x.lid]
    n = content_len(e)
    smp = content_sample(e) if isinstance(e, SContent) else None
    row = "v" if (isinstance(smp, Arr) and smp.is_vec) or (isinstance(smp, NF) and smp.is_vec()) else "s"
    sid = itp.new(st, SContent(("of", freeze(e)), ()))
    itp.storage_tag[sid] = "sarr"
    return SArr(sid, n, row)


def sarr_get(itp, st, v, k):
    c = st.heap[v.sid]
    k = nf(itp, st, k)
    lo = NF.of(v.lo) if v.lo is not None else NF.const(0)
    if isinstance(k, NF) and k.is_const() and k.const_val() < 0:
        k = NF.of(sarr_len(v)) + k
    pos = lift(lambda x: NF.of(x) + lo, k)

    def rd(p):
        if isinstance(c, SContent):
            for s in reversed(c.stores):
                if s[0] == "set":
                    eq = S.compare("Eq", s[1], p)
                    if eq is True:
                        return s[2]
                    if eq is not False:
                        break
        if isinstance(c, SContent) and not c.stores and isinstance(c.base, tuple) and c.base[0] == "of":
            return NF.of(app("elem", c.base[1], p, kind=v.row))
        return NF.of(app("elem", freeze(c), p, kind=v.row))
    r = lift(rd, pos)
    if v.row == "v":
        return A.vec(itp, st, r, "elem")
    return r


def mu_storage(itp, st, name, a0, aliases):
    n = len(a0.idx)
    kind = "v" if a0.symax is not None else "s"
    cells = tuple(NF.of(sym(f"{name}.{i}", kind)) for i in range(n))
    sid = itp.new(st, cells)
    itp.storage_tag[sid] = "mu"
    itp.may_alias[sid] = set(aliases)
    return sid


def sign_of(st, v):
    if isinstance(v, Phi):
        return "pos" if all_leaves_pos(v) else None
    if isinstance(v, (int, Fraction)):
        return "pos" if v > 0 else None
    if isinstance(v, NF):
        return v.sign_hint()
    return None


def all_leaves_pos(v):
    return all((isinstance(l, (int, Fraction)) and l > 0) or (isinstance(l, float) and l > 0)
               or (isinstance(l, NF) and l.sign_hint() == "pos") for l in leaves(v))


# --------------------------------------------------------------------- dicts


def hashable(itp, k):
    if isinstance(k, (str, int, bool, Fraction, Cls, EnumVal, Ext, Func, tuple)) or k is None:
        return k
    if isinstance(k, NF) and k.is_const():
        return k.const_val()
    itp.unsupported(f"dictionary key {k!r}")


def dict_items(itp, st, d):
    d = itp.prune(st, d)
    if isinstance(d, DictV):
        out = {}
        for k, v in st.heap[d.did].items():
            p = present(v)
            if p is True:
                out[k] = v
            else:
                dd = itp.decide(st, p)
                if dd is True:
                    out[k] = itp.prune(st, v)
                elif dd is None:
                    itp.unsupported("conditionally present key")
        return out
    if isinstance(d, Obj):
        m = itp.find(st, d.cls, "keys")
        if m is not UNDEF:
            ks = itp.iter_items(st, itp.call(st, Bound(m, d), [], {}))
            return {k: itp.getitem(st, d, k) for k in ks}
    itp.unsupported("** of non-dict")


def dict_get(itp, st, d, k, default=UNDEF):
    e = st.heap[d.did]
    kk = hashable(itp, k)
    v = e.get(kk, UNDEF)
    v = itp.prune(st, v)
    p = present(v)
    if p is True:
        return v
    if p is False or itp.decide(st, p) is False:
        if default is UNDEF:
            itp.raise_(st, ExcV("KeyError", (repr(k),)))
        return default
    if default is UNDEF:
        itp.raise_if(st, not_(p), ExcV("KeyError", (repr(k),)))
        return itp.prune(st, v)
    return subst_undef(v, default)


def subst_undef(v, default):
    if isinstance(v, Phi):
        return mk_phi(v.cond, subst_undef(v.a, default), subst_undef(v.b, default))
    return default if v is UNDEF else v


def dict_set(itp, st, d, k, v):
    from .interp import DictEntry
    e = DictEntry(st.heap[d.did])
    e[hashable(itp, k)] = v
    st.heap[d.did] = e


def dict_del(itp, st, d, k):
    from .interp import DictEntry
    dict_get(itp, st, d, k)
    e = DictEntry(st.heap[d.did])
    e.pop(hashable(itp, k))
    st.heap[d.did] = e


def delitem(itp, st, o, i):
    o = itp.prune(st, o)
    if isinstance(o, DictV):
        return dict_del(itp, st, o, i)
    if isinstance(o, ListV):
        e = list(list_content(itp, st, o))
        if isinstance(i, SliceV):
            r = A.slice_range(itp, st, i, len(e))
            e = [x for k, x in enumerate(e) if k not in r]
        else:
            j = A.as_int(itp, st, i)
            if not -len(e) <= j < len(e):
                itp.raise_(st, ExcV("IndexError"))
            del e[j]
        st.heap[o.lid] = tuple(e)
        return
    if isinstance(o, Obj):
        m = itp.find(st, o.cls, "__delitem__")
        if m is not UNDEF:
            return itp.call(st, Bound(m, o), [i], {})
    itp.unsupported("del item")


# --------------------------------------------------------------------- items


def getitem(itp, st, o, i):
    o = itp.prune(st, o)
    if not isinstance(i, (tuple, SliceV)):
        i = itp.prune(st, i)
    if isinstance(o, Phi):
        return itp.branch(st, o.cond, lambda s: getitem(itp, s, o.a, i), lambda s: getitem(itp, s, o.b, i))
    if isinstance(i, Phi):
        return itp.branch(st, i.cond, lambda s: getitem(itp, s, o, i.a), lambda s: getitem(itp, s, o, i.b))
    if isinstance(o, Arr):
        return A.getitem(itp, st, o, i)
    if isinstance(o, NF) and o.is_vec():
        return A.getitem(itp, st, A.vec(itp, st, o), i)
    if isinstance(o, SArr):
        if isinstance(i, SliceV):
            return sarr_slice(itp, st, o, i)
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], SliceV) and i[1].lo is None and i[1].hi is None:
            return getitem(itp, st, o, i[0])
        if is_scalar(i):
            return sarr_get(itp, st, o, i)
        itp.unsupported("index of symbolic-length array")
    if isinstance(o, tuple) or isinstance(o, str):
        if isinstance(i, SliceV):
            r = A.slice_range(itp, st, i, len(o))
            if isinstance(r, Phi):
                return itp.branch(st, r.cond, lambda s: getitem(itp, s, o, i), lambda s: getitem(itp, s, o, i))
            if not isinstance(r, range):
                itp.unsupported("symbolic slice")
            return "".join(o[k] for k in r) if isinstance(o, str) else tuple(o[k] for k in r)
        j = A.as_int(itp, st, i)
        if isinstance(j, Phi):
            return itp.branch(st, j.cond, lambda s: getitem(itp, s, o, j.a), lambda s: getitem(itp, s, o, j.b))
        if not isinstance(j, int):
            itp.unsupported("symbolic tuple index")
        if not -len(o) <= j < len(o):
            itp.raise_(st, ExcV("IndexError", ("tuple index out of range",)))
        return o[j]
    if isinstance(o, ListV):
        done, r = split_content(itp, st, o.lid, lambda s: getitem(itp, s, o, i))
        if done:
            # content was split: evaluate per alternative
            return r[1] if isinstance(r, tuple) and False else split_get(itp, st, o, i)
        e = st.heap[o.lid]
        if isinstance(e, SContent):
            if isinstance(i, SliceV):
                itp.unsupported("slice of symbolic list")
            k = A.as_int(itp, st, i)
            if k == -1 and e.stores and e.stores[-1][0] == "append" and entails(st.guard, e.stores[-1][3]):
                return e.stores[-1][2]
            if k == -1:
                k = S.arith("Sub", len_content(e), 1)
            return list_elem(itp, st, e, k)
        if isinstance(i, SliceV):
            r = A.slice_range(itp, st, i, len(e))
            if not isinstance(r, range):
                itp.unsupported("symbolic slice of list")
            return ListV(itp.new(st, tuple(e[k] for k in r)))
        j = A.as_int(itp, st, i)
        if not isinstance(j, int):
            itp.unsupported(f"symbolic list index {j!r}")
        if not -len(e) <= j < len(e):
            itp.eff(st, "indexerror", j, len(e))
            itp.raise_(st, ExcV("IndexError", ("list index out of range",)))
        return itp.prune(st, e[j])
    if isinstance(o, DictV):
        return dict_get(itp, st, o, i)
    if isinstance(o, Obj):
        m = itp.find(st, o.cls, "__getitem__")
        if m is not UNDEF:
            return itp.call(st, Bound(m, o), [i], {})
        itp.raise_(st, ExcV("TypeError", ("object is not subscriptable",)))
    if isinstance(o, Cls):
        m = itp.find(st, o, "__class_getitem__")
        if m is not UNDEF:
            f = m.func if isinstance(m, ClassM) else m
            return itp.call(st, Bound(f, o), [i], {})
        if o.enum:
            return st.heap[o.cid][i]
        itp.raise_(st, ExcV("TypeError", ("class is not subscriptable",)))
    if isinstance(o, Ext):
        if o.path == "os.environ":
            return environ_get(itp, st, i)
        return Ext(f"{o.path}[]")
    if isinstance(o, Opaque):
        return opaque_item(itp, st, o, i)
    if o is None:
        itp.eff(st, "typeerror", "subscript of None")
        itp.raise_(st, ExcV("TypeError", ("'NoneType' object is not subscriptable",)))
    if is_scalar(o):
        itp.raise_(st, ExcV("TypeError", ("scalar is not subscriptable",)))
    itp.unsupported(f"subscript of {o!r}")


def split_get(itp, st, o, i):
    from .interp import PhiContent
    e = st.heap[o.lid]
    if not isinstance(e, PhiContent):
        return getitem(itp, st, o, i)
    c, a, b = e

    def w(s, alt):
        s.heap[o.lid] = alt
        return getitem(itp, s, o, i)
    return itp.branch(st, c, lambda s: w(s, a), lambda s: w(s, b))


def sarr_slice(itp, st, o, i):
    if i.step not in (None, 1):
        itp.unsupported("strided symbolic slice")
    base = NF.of(o.lo) if o.lo is not None else NF.const(0)
    n = sarr_len(o)

    def pos(x):
        x = nf(itp, st, x)
        if isinstance(x, NF) and x.is_const() and x.const_val() < 0:
            return NF.of(n) + x
        return x
    lo = o.lo if i.lo is None else S.arith("Add", base, pos(i.lo))
    hi = o.hi if i.hi is None else S.arith("Add", base, pos(i.hi))
    return SArr(o.sid, o.length, o.row, lo, hi)


def setitem(itp, st, o, i, v):
    o = itp.prune(st, o)
    if isinstance(o, Phi):
        itp.branch(st, o.cond, lambda s: setitem(itp, s, o.a, i, v), lambda s: setitem(itp, s, o.b, i, v))
        return
    if not isinstance(i, (tuple, SliceV)):
        i = itp.prune(st, i)
    if isinstance(i, Phi):
        itp.branch(st, i.cond, lambda s: setitem(itp, s, o, i.a, v), lambda s: setitem(itp, s, o, i.b, v))
        return
    if isinstance(o, Arr):
        return A.setitem(itp, st, o, i, v)
    if isinstance(o, SArr):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], SliceV) and i[1].lo is None and i[1].hi is None:
            i = i[0]
        if isinstance(i, (SliceV, tuple)):
            itp.unsupported("slice store in symbolic-length array")
        c = st.heap[o.sid]
        k = nf(itp, st, i)
        if isinstance(k, NF) and k.is_const() and k.const_val() < 0:
            k = NF.of(sarr_len(o)) + k
        if o.lo is not None:
            k = lift(lambda x: NF.of(x) + NF.of(o.lo), k)
        x = val(itp, st, v)
        st.heap[o.sid] = SContent(c.base, c.stores + (("set", k, x, st.guard, itp.loops),))
        itp.eff(st, "sset", o.sid, k, x)
        return
    if isinstance(o, ListV):
        e = list(list_content(itp, st, o))
        if isinstance(i, SliceV):
            r = A.slice_range(itp, st, i, len(e))
            new = itp.iter_items(st, v)
            if r.step == 1:
                e[r.start:r.stop] = new
            else:
                for k, x in zip(r, new):
                    e[k] = x
        else:
            j = A.as_int(itp, st, i)
            if not isinstance(j, int):
                itp.unsupported("symbolic list store")
            if not -len(e) <= j < len(e):
                itp.raise_(st, ExcV("IndexError", ("list assignment index out of range",)))
            e[j] = v
        st.heap[o.lid] = tuple(e)
        return
    if isinstance(o, DictV):
        return dict_set(itp, st, o, i, v)
    if isinstance(o, Obj):
        m = itp.find(st, o.cls, "__setitem__")
        if m is not UNDEF:
            itp.call(st, Bound(m, o), [i, v], {})
            return
    if isinstance(o, Opaque):
        itp.eff(st, "opaque_store", o.term, term(itp, st, i), term(itp, st, v))
        return
    itp.unsupported(f"store into {o!r}")


def store_whole(itp, st, a, r):
    A.assign_into(itp, st, a, r)


# ------------------------------------------------------------------- opaques


def opaque_item(itp, st, o, i):
    return Opaque(("item", o.term, term(itp, st, i)), note="vec" if o.note == "vecs" else "")


def opaque_call(itp, st, f, args, kw):
    itp.eff(st, "opaquecall", f.term, tuple(term(itp, st, a) for a in args))
    return Opaque(("call", f.term, tuple(term(itp, st, a) for a in args),
                   tuple((k, term(itp, st, v)) for k, v in sorted(kw.items()))))


def setattr(itp, st, o, name, v):
    if isinstance(o, Arr) and name == "shape":
        itp.unsupported("shape assignment")
    if isinstance(o, Opaque):
        itp.eff(st, "opaque_setattr", o.term, name, term(itp, st, v))
        return
    itp.unsupported(f"attribute store on {o!r}")


def environ_get(itp, st, name, default=None):
    if name == "NBKODE_NONUMBA":
        return "1" if itp.no_numba else default
    return Opaque(("environ", name), note="str")


# ------------------------------------------------------------------- strings


def pystr(itp, st, v):
    v = itp.prune(st, v)
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return str(v)
    if isinstance(v, Cls):
        return f"<class {v.name}>"
    if isinstance(v, Obj):
        for n in ("__str__", "__repr__"):
            m = itp.find(st, v.cls, n)
            if m is not UNDEF:
                return itp.call(st, Bound(m, v), [], {})
    if isinstance(v, tuple):
        ps = [pyrepr(itp, st, x) for x in v]
        if all(isinstance(p, str) for p in ps):
            return "(" + ", ".join(ps) + (",)" if len(ps) == 1 else ")")
    if isinstance(v, DictV):
        out = []
        for k, x in st.heap[v.did].items():
            a, b = pyrepr(itp, st, k), pyrepr(itp, st, x)
            if not (isinstance(a, str) and isinstance(b, str)):
                break
            out.append(f"{a}: {b}")
        else:
            return "{" + ", ".join(out) + "}"
    if isinstance(v, ListV):
        e = st.heap[v.lid]
        if type(e) is tuple:
            ps = [pyrepr(itp, st, x) for x in e]
            if all(isinstance(p, str) for p in ps):
                return "[" + ", ".join(ps) + "]"
    return Opaque(("str", term(itp, st, v)), note="str")


def pyrepr(itp, st, v):
    if isinstance(v, str):
        return repr(v)
    return pystr(itp, st, v)


def fmt(itp, st, v, node):
    v = itp.prune(st, v)
    if node.format_spec is not None:
        return Opaque(("fmt", term(itp, st, v)), note="str")
    return pyrepr(itp, st, v) if node.conversion == 114 else pystr(itp, st, v)


def str_mod(itp, st, a, b):
    xs = b if isinstance(b, tuple) else (b,)
    if all(isinstance(x, (str, int)) for x in xs):
        return a % tuple(xs)
    return Opaque(("strmod", a, term(itp, st, b)), note="str")


class _Fmt(string.Formatter):
    def __init__(self, itp, st):
        self.itp, self.st = itp, st

    def get_field(self, name, args, kwargs):
        import _string
        first, rest = _string.formatter_field_name_split(name)
        obj = self.get_value(first, args, kwargs)
        for is_attr, i in rest:
            obj = self.itp.getattr(self.st, obj, i) if is_attr else self.itp.getitem(self.st, obj, i)
        return obj, first

    def format_field(self, v, spec):
        r = pystr(self.itp, self.st, v)
        if not isinstance(r, str):
            raise _Opq
        return format(r, spec)

    def convert_field(self, v, c):
        return pyrepr(self.itp, self.st, v) if c == "r" else v


class _Opq(Exception):
    pass


def str_method(itp, st, s, name):
    def m(itp, st, args, kw):
        if name == "format":
            try:
                return _Fmt(itp, st).vformat(s, args, kw)
            except _Opq:
                return Opaque(("format", s, tuple(term(itp, st, a) for a in args)), note="str")
        if name == "join":
            xs = itp.iter_items(st, args[0])
            if all(isinstance(x, str) for x in xs):
                return s.join(xs)
            return Opaque(("join", s, tuple(term(itp, st, a) for a in xs)), note="str")
        if all(isinstance(a, (str, int, tuple)) or a is None for a in args) and hasattr(s, name):
            r = getattr(s, name)(*args, **kw)
            if isinstance(r, list):
                return ListV(itp.new(st, tuple(r)))
            return r
        return Opaque(("strm", s, name, tuple(term(itp, st, a) for a in args)), note="str")
    import builtins as _b
    if not hasattr(str, name):
        itp.missing(st, s, name)
    return Model(f"str.{name}", m)



# ----------------------------------------------------- lists of unknown length


def sarr_concat(itp, st, parts):
    t = tuple(term(itp, st, p) for p in parts)
    n = 0
    for p in parts:
        n = S.arith("Add", n, sarr_len(p) if isinstance(p, SArr) else p.shape[0])
    row = [p.row for p in parts if isinstance(p, SArr)][0]
    sid = itp.new(st, SContent(("concat", t), ()))
    itp.storage_tag[sid] = "sarr"
    return SArr(sid, n, row)


def sym_comprehension(itp, st, ctx, e, sc):
    """comprehension over an iterable of unknown length: element function at a
    generic position"""
    if len(e.generators) != 1 or e.generators[0].ifs:
        itp.unsupported("comprehension over unknown length with filter")
    n, elem = sym_iter(itp, st, sc.it)
    vid = next(itp.loopcount)
    k = NF.of(sym(f"k{vid}", sign="nonneg"))
    fr = itp.new(st, {})
    itp.meta[fr] = (ctx.frame, ctx.module, "func")
    from .interp import Ctx
    c2 = Ctx(fr, ctx.module, ctx.func, ctx.cls)
    itp.assign(e.generators[0].target, elem(st, k), st, c2)
    loops = itp.loops
    itp.loops = loops + (vid,)
    v = itp.ev(e.elt, st, c2)
    itp.loops = loops
    base = ("tab", term(itp, st, v), k, NF.of(n))
    SAMPLES[base] = v
    return ListV(itp.new(st, SContent(base, ())))


def builtins(itp):
    from .builtin_models import build
    return build(itp)


def call_ext(itp, st, f, args, kw):
    from .extlib import call_ext as ce
    return ce(itp, st, f, args, kw)


def getattribute(itp, st, o, name):
    from .attrs import getattribute as ga
    return ga(itp, st, o, name)
