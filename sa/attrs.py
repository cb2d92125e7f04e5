"""Attributes and methods of builtin and array values."""
from __future__ import annotations

from fractions import Fraction

from . import arrays as A
from . import extlib as X
from . import npmodel as M
from . import scalars as S
from .nf import NF, and_, app, boolean, not_
from .scalars import is_scalar
from .values import (UNDEF, Arr, Bound, ClassM, DictV, ExcCls, ExcV, Ext, IterV, ListV, Model, Obj, Opaque,
                     Partial, Phi, Prop, RangeV, SArr, SContent, SliceV, StaticM, leaves, mk_phi, same)

ARR_METHODS = {"sum", "mean", "max", "min", "any", "all", "dot", "copy", "ravel", "reshape", "argsort", "cumsum",
               "cumprod", "prod", "argmax", "argmin", "clip", "repeat", "searchsorted", "squeeze", "transpose",
               "nonzero", "take", "diagonal", "round"}


def method(name, fn):
    return Model(name, lambda itp, st, args, kw: fn(itp, st, args, kw))


def getattribute(itp, st, o, name):
    if isinstance(o, (Arr, SArr)) or is_scalar(o):
        return arr_attr(itp, st, o, name)
    if isinstance(o, str) or (isinstance(o, Opaque) and o.note == "str"):
        if isinstance(o, str):
            return M.str_method(itp, st, o, name)
        return Model(f"str.{name}", lambda i, s, a, k: Opaque(("strm", o.term, name), note="str"))
    if isinstance(o, ListV):
        return list_attr(itp, st, o, name)
    if isinstance(o, DictV):
        return dict_attr(itp, st, o, name)
    if isinstance(o, tuple):
        if name == "index":
            def idx(i, s, a, k):
                for j, x in enumerate(o):
                    if same(x, a[0]):
                        return j
                i.raise_(s, ExcV("ValueError"))
            return Model("tuple.index", idx)
        if name == "count":
            return Model("tuple.count", lambda i, s, a, k: sum(1 for x in o if same(x, a[0])))
        itp.missing(st, o, name)
    if isinstance(o, Opaque):
        return opaque_attr(itp, st, o, name)
    if isinstance(o, Ext):
        return X.ext_attr(itp, st, o, name)
    if isinstance(o, Prop):
        if name == "setter":
            return Model("setter", lambda i, s, a, k: Prop(o.fget, a[0]))
        if name == "getter":
            return Model("getter", lambda i, s, a, k: Prop(a[0], o.fset))
        if name == "fget":
            return o.fget
    if isinstance(o, ExcV):
        if name == "args":
            return o.args
        return Model(name, lambda i, s, a, k: o)
    if isinstance(o, Partial):
        return {"func": o.func, "args": o.args}.get(name) if name in ("func", "args") else itp.missing(st, o, name)
    if isinstance(o, Bound):
        if name == "__func__":
            return o.func
        if name == "__self__":
            return o.obj
        return itp.getattr(st, o.func, name)
    if isinstance(o, Model):
        if name == "__name__":
            return o.name
        if o.name == "dict" and name == "fromkeys":
            def fk(i, s, a, k):
                from .interp import DictEntry
                v = a[1] if len(a) > 1 else None
                return DictV(i.new(s, DictEntry((M.hashable(i, x), v) for x in i.iter_items(s, a[0]))))
            return Model("fromkeys", fk)
        if o.name == "str":
            return Model(f"str.{name}", lambda i, s, a, k: i.call(s, i.getattr(s, a[0], name), a[1:], k))
        if o.name == "object" and name in ("__init__", "__init_subclass__"):
            return Model("noop", lambda i, s, a, k: None)
        if o.name == "object" and name == "__new__":
            return Model("object.__new__", lambda i, s, a, k: Obj(i.new(s, {}), a[0]))
        if o.name == "object" and name == "__setattr__":
            def sa(i, s, a, k):
                d = dict(s.heap[a[0].oid])
                d[a[1]] = a[2]
                s.heap[a[0].oid] = d
            return Model("object.__setattr__", sa)
    if isinstance(o, (ClassM, StaticM)) and name == "__func__":
        return o.func
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, RangeV) and name in ("start", "stop", "step"):
        return {"start": o.start, "stop": o.stop, "step": o.step}[name]
    if o is None:
        itp.eff(st, "attributeerror", "None", name)
    itp.missing(st, o, name)


def arr_attr(itp, st, o, name):
    if name == "size":
        return X.np_size(itp, st, [o], {})
    if name == "shape":
        return X.np_shape(itp, st, [o], {})
    if name == "ndim":
        return X.np_ndim(itp, st, [o], {})
    if name == "T":
        return A.transpose(o) if isinstance(o, Arr) else o
    if name == "dtype":
        return Ext("numpy.float64")
    if name == "real":
        return o
    if name in ("flags", "base", "ctypes", "data", "strides"):
        return Opaque(("arrattr", name, M.term(itp, st, o)))
    if name == "copy":
        def cp(i, s, a, k):
            return A.to_array(i, s, o, True) if not is_scalar(o) or M.nf(i, s, o) is not None and isinstance(o, NF) and o.is_vec() else o
        return Model("copy", cp)
    if name == "astype":
        def at(i, s, a, k):
            t = a[0]
            if isinstance(t, Ext) and t.path.split(".")[-1].startswith(("float", "double")) or \
                    isinstance(t, Model) and t.name == "float" or t in ("f8", "float", "d", "float64"):
                if is_scalar(o):
                    return S.tonum(o)
                return A.to_array(i, s, o, True) if k.get("copy", True) is not False else o
            from .builtin_models import to_int
            if isinstance(t, Model) and t.name == "bool":
                return A.elementwise(i, s, lambda x: i.truth(s, x), o)
            return A.elementwise(i, s, to_int, o)
        return Model("astype", at)
    if name == "flatten":
        return Model("flatten", lambda i, s, a, k: X.call_np(i, s, "flatten", [o], {}))
    if name == "fill":
        return Model("fill", lambda i, s, a, k: A.assign_into(i, s, o, a[0]))
    if name in ("item", "__float__"):
        def item(i, s, a, k):
            if is_scalar(o):
                return o
            if a:
                return A.getitem(i, s, o, a[0] if len(a) == 1 else tuple(a))
            cs = A.cells(i, s, o)
            if len(cs) != 1:
                i.raise_(s, ExcV("ValueError"))
            return cs[0]
        return Model("item", item)
    if name == "tolist":
        def tl(i, s, a, k):
            if is_scalar(o):
                return o
            xs = i.iter_items(s, o)
            return ListV(i.new(s, tuple(tl(i, s, [], {}) if False else
                                        (i.call(s, i.getattr(s, x, "tolist"), [], {}) if isinstance(x, Arr) and x.shape else x)
                                        for x in xs)))
        return Model("tolist", tl)
    if name == "sort":
        def srt(i, s, a, k):
            A.assign_into(i, s, o, X.sort_perm(i, s, o)[1])
        return Model("sort", srt)
    if name == "is_integer":
        return Model("is_integer", lambda i, s, a, k: isinstance(o, int) or (isinstance(o, Fraction) and o.denominator == 1))
    if name == "put":
        itp.unsupported("ndarray.put")
    if name in ARR_METHODS:
        def m(i, s, a, k):
            return X.call_np(i, s, name, [o] + list(a), k)
        return Model(f"ndarray.{name}", m)
    if name == "__len__":
        return Model("len", lambda i, s, a, k: M.length(i, s, o))
    if is_scalar(o) and name in ("numerator", "imag"):
        return 0 if name == "imag" else o
    itp.missing(st, o, name)


def list_attr(itp, st, o, name):
    def content(s):
        return M.list_content(itp, s, o)

    def alt(fn):
        """evaluate per gated content"""
        def go(i, s, a, k):
            from .interp import PhiContent
            e = s.heap[o.lid]
            if isinstance(e, PhiContent):
                d = i.decide(s, e[0])

                def w(z, c):
                    z.heap[o.lid] = c
                    return go(i, z, a, k)
                if d is not None:
                    return w(s, e[1] if d else e[2])
                return i.branch(s, e[0], lambda z: w(z, e[1]), lambda z: w(z, e[2]))
            return fn(i, s, a, k)
        return Model(f"list.{name}", go)

    if name == "append":
        return Model("append", lambda i, s, a, k: M.list_append(i, s, o, a[0]))
    if name == "add":
        def add(i, s, a, k):
            if not any(same(x, a[0]) for x in content(s)):
                M.list_append(i, s, o, a[0])
        return alt(add)
    if name == "appendleft":
        def apl(i, s, a, k):
            s.heap[o.lid] = (a[0],) + content(s)
        return alt(apl)
    if name == "extend" or name == "update":
        return Model("extend", lambda i, s, a, k: M.list_extend(i, s, o, a[0]))
    if name in ("pop", "popleft"):
        def pop(i, s, a, k):
            e = s.heap[o.lid]
            if isinstance(e, SContent):
                if name == "pop" and not a and e.stores and e.stores[-1][0] == "append":
                    s.heap[o.lid] = SContent(e.base, e.stores[:-1])
                    return e.stores[-1][2]
                i.unsupported("pop from symbolic list")
            j = 0 if name == "popleft" else (A.as_int(i, s, a[0]) if a else -1)
            if not e or not isinstance(j, int) or not -len(e) <= j < len(e):
                i.eff(s, "indexerror", j, len(e))
                i.raise_(s, ExcV("IndexError", ("pop from empty list",)))
            j %= len(e)
            s.heap[o.lid] = e[:j] + e[j + 1:]
            i.eff(s, "pop", o.lid)
            return i.prune(s, e[j])
        return alt(pop)
    if name == "insert":
        def ins(i, s, a, k):
            e = content(s)
            j = A.as_int(i, s, a[0])
            s.heap[o.lid] = tuple(list(e[:j]) + [a[1]] + list(e[j:])) if j >= 0 else e[:j] + (a[1],) + e[j:]
        return alt(ins)
    if name in ("remove", "discard"):
        def rem(i, s, a, k):
            e = content(s)
            for j, x in enumerate(e):
                if same(x, a[0]):
                    s.heap[o.lid] = e[:j] + e[j + 1:]
                    return None
            if name == "remove":
                i.raise_(s, ExcV("ValueError"))
        return alt(rem)
    if name == "clear":
        def clr(i, s, a, k):
            s.heap[o.lid] = ()
        return Model("clear", clr)
    if name == "copy":
        return alt(lambda i, s, a, k: ListV(i.new(s, s.heap[o.lid]), o.kind))
    if name == "reverse":
        def rev(i, s, a, k):
            s.heap[o.lid] = content(s)[::-1]
        return alt(rev)
    if name == "index":
        def idx(i, s, a, k):
            for j, x in enumerate(content(s)):
                if same(x, a[0]):
                    return j
            i.raise_(s, ExcV("ValueError"))
        return alt(idx)
    if name == "count":
        return alt(lambda i, s, a, k: sum(1 for x in content(s) if same(x, a[0])))
    if name == "sort":
        from .builtin_models import sort_items

        def srt(i, s, a, k):
            r = sort_items(i, s, list(content(s)), k.get("key"), k.get("reverse", False))
            s.heap[o.lid] = tuple(r)
        return alt(srt)
    if name in ("union", "intersection", "difference"):
        op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]
        return Model(name, lambda i, s, a, k: M.binop(i, s, op, o, ListV(i.new(s, tuple(i.iter_items(s, a[0]))), "set")))
    if name == "issubset":
        return Model(name, lambda i, s, a, k: all(any(same(x, y) for y in i.iter_items(s, a[0])) for x in content(s)))
    if name in ("__len__",):
        return Model("len", lambda i, s, a, k: M.length(i, s, o))
    itp.missing(st, o, name)


def dict_attr(itp, st, o, name):
    from .interp import DictEntry
    if name == "get":
        return Model("get", lambda i, s, a, k: M.dict_get(i, s, o, a[0], a[1] if len(a) > 1 else k.get("default")))
    if name == "keys":
        return Model("keys", lambda i, s, a, k: ListV(i.new(s, tuple(M.dict_items(i, s, o))), "set"))
    if name == "values":
        return Model("values", lambda i, s, a, k: ListV(i.new(s, tuple(M.dict_items(i, s, o).values()))))
    if name == "items":
        return Model("items", lambda i, s, a, k: ListV(i.new(s, tuple(M.dict_items(i, s, o).items()))))
    if name == "pop":
        def pop(i, s, a, k):
            v = M.dict_get(i, s, o, a[0], a[1] if len(a) > 1 else UNDEF)
            e = DictEntry(s.heap[o.did])
            e.pop(M.hashable(i, a[0]), None)
            s.heap[o.did] = e
            return v
        return Model("pop", pop)
    if name == "update":
        def upd(i, s, a, k):
            e = DictEntry(s.heap[o.did])
            if a:
                if isinstance(a[0], (DictV, Obj)):
                    e.update(M.dict_items(i, s, a[0]))
                else:
                    for kk, v in i.iter_items(s, a[0]):
                        e[M.hashable(i, kk)] = v
            e.update(k)
            s.heap[o.did] = e
        return Model("update", upd)
    if name == "setdefault":
        def sd(i, s, a, k):
            e = s.heap[o.did]
            kk = M.hashable(i, a[0])
            d = a[1] if len(a) > 1 else None
            v = M.dict_get(i, s, o, kk, d)
            M.dict_set(i, s, o, kk, v)
            return v
        return Model("setdefault", sd)
    if name == "copy":
        return Model("copy", lambda i, s, a, k: DictV(i.new(s, DictEntry(s.heap[o.did]))))
    if name == "clear":
        def clr(i, s, a, k):
            s.heap[o.did] = DictEntry()
        return Model("clear", clr)
    if name == "popitem":
        def pi(i, s, a, k):
            e = DictEntry(s.heap[o.did])
            if not e:
                i.raise_(s, ExcV("KeyError"))
            kk = list(e)[-1]
            v = e.pop(kk)
            s.heap[o.did] = e
            return (kk, v)
        return Model("popitem", pi)
    if name == "__contains__":
        return Model("contains", lambda i, s, a, k: M.contains(i, s, o, a[0]))
    itp.missing(st, o, name)


def opaque_attr(itp, st, o, name):
    if callable(o.attrs):
        r = o.attrs(itp, st, o, name)
        if r is not UNDEF:
            return r
    elif isinstance(o.attrs, dict) and name in o.attrs:
        r = o.attrs[name]
        return r
    if o.note == "fn":
        if name in ("__name__", "__qualname__"):
            return Opaque(("name", o.term), note="str")
        if name == "__doc__":
            return None
        if name == "py_func":
            return o
        itp.missing(st, o, name)
    return Opaque(("attr", o.term, name))
