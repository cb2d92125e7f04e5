"""Python builtins on abstract values."""
from __future__ import annotations

from fractions import Fraction

from . import arrays as A
from . import extlib as X
from . import npmodel as M
from . import scalars as S
from . import values as V
from .nf import NF, F, and_, app, boolean, not_, or_
from .scalars import is_scalar
from .values import (UNDEF, Arr, Bound, ClassM, Cls, Dead, DictV, EnumVal, ExcCls, ExcV, Ext, Func, IterV,
                     ListV, Mod, Model, Obj, Opaque, Partial, Phi, Prop, RangeV, SArr, SContent, SliceV,
                     StaticM, SuperV, is_truthlike, leaves, lift, mk_phi, same)


def to_int(x):
    x = S.tonum(x)
    if isinstance(x, Phi):
        return lift(to_int, x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, float):
        return NF.of(app("int", str(x)))
    x = NF.of(x)
    if x.is_const():
        return int(x.const_val())
    if str(x).startswith("len") or is_integral(x):
        return x
    return NF.of(app("int", x))


def is_integral(x):
    return all(c.denominator == 1 for c in x.t.values()) and \
        all(a.key[0] == "app" and a.key[1] in ("len", "int") or a.key[:2] == ("sym", "N") for a in x.atoms())


def sort_items(itp, st, xs, key, reverse):
    ks = [x if key is None else itp.call(st, key, [x], {}) for x in xs]
    order = []
    for i in range(len(xs)):
        j = len(order)
        while j > 0:
            op = "Gt" if reverse else "Lt"
            c = itp.truth(st, M.compare(itp, st, op, ks[i], ks[order[j - 1]]))
            d = itp.decide(st, c)
            if d is None:
                return itp.branch(st, c, lambda s: tuple(sort_items(itp, s, xs, key, reverse)),
                                  lambda s: tuple(sort_items(itp, s, xs, key, reverse)))
            if not d:
                break
            j -= 1
        order.insert(j, i)
    return [xs[i] for i in order]


def isinstance_(itp, st, v, t):
    v = itp.prune(st, v)
    if isinstance(v, Phi):
        return or_(and_(v.cond, itp.truth(st, isinstance_(itp, st, v.a, t))),
                   and_(not_(v.cond), itp.truth(st, isinstance_(itp, st, v.b, t))))
    if isinstance(t, tuple):
        return or_(*[itp.truth(st, isinstance_(itp, st, v, x)) for x in t])
    if isinstance(t, Cls):
        if isinstance(v, Obj):
            return t in v.cls.mro
        if isinstance(v, EnumVal):
            return t in v.cls.mro
        if isinstance(v, ExcV) and isinstance(v.cls, Cls):
            return t in v.cls.mro
        if isinstance(v, Opaque) and v.note not in ("fn", "str", "vec"):
            return boolean(("isinstance", v.term, t.name))
        return False
    if isinstance(t, ExcCls):
        return isinstance(v, ExcV) and itp.exc_match(v, t)
    name = t.name if isinstance(t, Model) else t.path.split(".")[-1] if isinstance(t, Ext) else None
    if isinstance(v, Opaque) and v.note == "":
        return boolean(("isinstance", v.term, name))
    if name == "object":
        return True
    if name == "type":
        return isinstance(v, (Cls, ExcCls)) or isinstance(v, Model) and v.name in ("int", "float", "str")
    if name == "str":
        return isinstance(v, str) or isinstance(v, Opaque) and v.note == "str"
    if name == "bool" or name == "bool_":
        return is_truthlike(v)
    if name in ("int", "Integral", "integer"):
        return isinstance(v, int) or isinstance(v, NF) and is_integral(v)
    if name in ("float", "Real", "Number", "floating", "float64", "number"):
        if name in ("Real", "Number", "number"):
            return is_scalar(v) and not (isinstance(v, NF) and v.is_vec())
        return isinstance(v, (Fraction, float)) or isinstance(v, NF) and not v.is_vec() and not is_integral(v)
    if name == "ndarray":
        return isinstance(v, (Arr, SArr)) or isinstance(v, NF) and v.is_vec()
    if name == "list":
        return isinstance(v, ListV) and v.kind == "list"
    if name == "tuple":
        return isinstance(v, tuple)
    if name in ("set", "frozenset"):
        return isinstance(v, ListV) and v.kind == "set"
    if name in ("dict", "Mapping", "MutableMapping", "OrderedDict"):
        if isinstance(v, DictV):
            return True
        if isinstance(v, Obj):
            return any(isinstance(c, Cls) and c.name in ("Mapping", "MutableMapping") for c in v.cls.mro)
        return False
    if name in ("Iterable", "Sequence", "Sized", "Collection", "Container"):
        if isinstance(v, (tuple, ListV, Arr, SArr, str, DictV)):
            return True
        if isinstance(v, Obj):
            return itp.find(st, v.cls, "__iter__") is not UNDEF
        return False
    if name == "Callable":
        return callable_(itp, st, v)
    if name in ("FunctionType", "function"):
        return isinstance(v, Func)
    if name == "property":
        return isinstance(v, Prop)
    if name == "NoneType":
        return v is None
    itp.unsupported(f"isinstance with {t!r}")


def callable_(itp, st, v):
    v = itp.prune(st, v)
    if isinstance(v, Phi):
        return or_(and_(v.cond, callable_(itp, st, v.a)), and_(not_(v.cond), callable_(itp, st, v.b)))
    if isinstance(v, Obj):
        return itp.find(st, v.cls, "__call__") is not UNDEF
    if isinstance(v, Opaque):
        return True if v.note == "fn" or v.call else False if v.note in ("str", "vec") else boolean(("callable", v.term))
    return isinstance(v, (Func, Bound, Model, Cls, ExcCls, Partial, StaticM, ClassM))


def hasattr_(itp, st, o, name):
    o = itp.prune(st, o)
    if isinstance(o, Phi):
        return or_(and_(o.cond, hasattr_(itp, st, o.a, name)), and_(not_(o.cond), hasattr_(itp, st, o.b, name)))
    if isinstance(o, Opaque) and o.note == "" and not o.attrs:
        return boolean(("hasattr", o.term, name))
    snap = st.fork()
    neff = len(itp.effects)
    itp.sinks.append([])
    try:
        itp.getattr(snap, o, name)
        ok = True
    except Dead:
        ok = False
    finally:
        itp.sinks.pop()
        del itp.effects[neff:]
    return ok


def getattr_(itp, st, args, kw):
    o, name = args[0], args[1]
    if not isinstance(name, str):
        itp.unsupported("getattr with computed name")
    if len(args) > 2:
        h = hasattr_(itp, st, o, name)
        if h is False:
            return args[2]
        if h is not True:
            return itp.branch(st, h, lambda s: itp.getattr(s, o, name), lambda s: args[2])
    return itp.getattr(st, o, name)


def _minmax(big):
    def f(itp, st, args, kw):
        xs = itp.try_items(st, args[0]) if len(args) == 1 else list(args)
        if xs is None:
            return (X.np_max if big else X.np_min)(itp, st, args, {})
        if isinstance(xs, Phi):
            return itp.branch(st, xs.cond, lambda s: f(itp, s, [xs.a], kw), lambda s: f(itp, s, [xs.b], kw))
        if not xs:
            if "default" in kw:
                return kw["default"]
            itp.raise_(st, ExcV("ValueError", ("empty sequence",)))
        key = kw.get("key")
        if key is None and all(is_scalar(M.val(itp, st, x)) for x in xs):
            acc = M.val(itp, st, xs[0])
            for x in xs[1:]:
                acc = lift(lambda p, q: S.maximum(p, q, big), acc, M.val(itp, st, x))
            acc = itp.prune(st, acc)
            for x in xs:  # the object itself, which an array shares with its owner
                if isinstance(x, Arr) and not isinstance(acc, Phi) and same(M.val(itp, st, x), acc):
                    return x
            return acc
        best = xs[0]
        kb = best if key is None else itp.call(st, key, [best], {})
        for x in xs[1:]:
            kx = x if key is None else itp.call(st, key, [x], {})
            c = itp.truth(st, M.compare(itp, st, "Gt" if big else "Lt", kx, kb))
            best, kb = mk_phi(c, x, best), mk_phi(c, kx, kb)
        return itp.prune(st, best)
    return f


def sum_(itp, st, args, kw):
    xs = itp.try_items(st, args[0])
    acc = args[1] if len(args) > 1 else kw.get("start", 0)
    if xs is None:
        return X.np_sum(itp, st, args[:1], {})
    if isinstance(xs, Phi):
        return itp.branch(st, xs.cond, lambda s: sum_(itp, s, [xs.a] + args[1:], kw),
                          lambda s: sum_(itp, s, [xs.b] + args[1:], kw))
    for x in xs:
        acc = M.binop(itp, st, "Add", acc, x)
    return acc


def anyall(isall):
    def f(itp, st, args, kw):
        xs = itp.try_items(st, args[0])
        if xs is None:
            return X.NP["all" if isall else "any"](itp, st, args, {})
        if isinstance(xs, Phi):
            return itp.branch(st, xs.cond, lambda s: f(itp, s, [xs.a], kw), lambda s: f(itp, s, [xs.b], kw))
        ts = [itp.truth(st, x) for x in xs]
        return and_(*ts) if isall else or_(*ts)
    return f


def seq(kind):
    def f(itp, st, args, kw):
        if not args:
            return () if kind == "tuple" else ListV(itp.new(st, ()), kind)
        v = itp.prune(st, args[0])
        xs = itp.try_items(st, v)
        if isinstance(xs, Phi):
            return itp.branch(st, xs.cond, lambda s: f(itp, s, [xs.a], kw), lambda s: f(itp, s, [xs.b], kw))
        if xs is None:
            if isinstance(v, ListV):
                return ListV(itp.new(st, st.heap[v.lid]), kind)
            if isinstance(v, SArr) and kind == "list":
                return ListV(itp.new(st, SContent(("of", M.term(itp, st, v)), ())))
            if isinstance(v, Opaque):
                return Opaque((kind, v.term))
            itp.unsupported(f"{kind}() of unknown length")
        if kind == "tuple":
            return tuple(xs)
        if kind == "set":
            u = []
            for x in xs:
                if not any(same(x, y) for y in u):
                    u.append(x)
            xs = u
        return ListV(itp.new(st, tuple(xs)), kind)
    return f


def dict_(itp, st, args, kw):
    from .interp import DictEntry
    d = DictEntry()
    if args:
        v = itp.prune(st, args[0])
        if isinstance(v, (DictV, Obj)):
            if isinstance(v, DictV):
                d.update(st.heap[v.did])
            else:
                d.update(M.dict_items(itp, st, v))
        else:
            for k, x in [itp.unpack(st, p, 2) for p in itp.iter_items(st, v)]:
                d[M.hashable(itp, k)] = x
    d.update(kw)
    return DictV(itp.new(st, d))


def float_(itp, st, args, kw):
    if not args:
        return Fraction(0)
    v = itp.prune(st, args[0])
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return float("inf")
        if s == "-inf":
            return -float("inf")
        if s == "nan":
            return float("nan")
        try:
            return Fraction(s)
        except ValueError:
            itp.raise_(st, ExcV("ValueError"))
    if isinstance(v, Arr):
        cs = A.cells(itp, st, v)
        if v.symax is not None or len(cs) != 1:
            itp.raise_(st, ExcV("TypeError", ("only length-1 arrays can be converted",)))
        v = cs[0]
    if v is None:
        itp.raise_(st, ExcV("TypeError"))
    return lift(lambda x: S.tonum(x), M.val(itp, st, v))


def int_(itp, st, args, kw):
    if not args:
        return 0
    v = itp.prune(st, args[0])
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            itp.raise_(st, ExcV("ValueError"))
    if v is None:
        itp.raise_(st, ExcV("TypeError"))
    return lift(to_int, M.val(itp, st, v))


def type_(itp, st, args, kw):
    v = itp.prune(st, args[0])
    if len(args) == 3:
        ns = M.dict_items(itp, st, args[2])
        return itp.mkclass(st, args[0], "dynamic", list(itp.iter_items(st, args[1])), dict(ns), kw)
    if isinstance(v, Phi):
        return mk_phi(v.cond, type_(itp, st, [v.a], {}), type_(itp, st, [v.b], {}))
    if isinstance(v, (Obj, EnumVal)):
        return v.cls
    if isinstance(v, ExcV):
        return v.cls if isinstance(v.cls, Cls) else ExcCls(v.cls)
    if isinstance(v, Cls):
        return itp.builtins["type"]
    for n, t in (("str", str), ("tuple", tuple)):
        if isinstance(v, t):
            return itp.builtins[n]
    if is_truthlike(v):
        return itp.builtins["bool"]
    if isinstance(v, int):
        return itp.builtins["int"]
    if isinstance(v, (Fraction, float)):
        return itp.builtins["float"]
    if isinstance(v, ListV):
        return itp.builtins[v.kind]
    if isinstance(v, DictV):
        return itp.builtins["dict"]
    if isinstance(v, (Arr, SArr)):
        return Ext("numpy.ndarray")
    if v is None:
        return Ext("NoneType")
    return Opaque(("type", M.term(itp, st, v)))


def super_(itp, st, args, kw):
    return SuperV(args[0], args[1])


def property_(itp, st, args, kw):
    return Prop(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))


def next_(itp, st, args, kw):
    v = itp.prune(st, args[0])
    if isinstance(v, Opaque):
        return Opaque(("next", v.term, next(itp.ids)))
    xs = itp.try_items(st, v)
    if isinstance(xs, Phi):
        return itp.branch(st, xs.cond, lambda s: next_(itp, s, [tuple(xs.a)] + args[1:], kw),
                          lambda s: next_(itp, s, [tuple(xs.b)] + args[1:], kw))
    if xs is None:
        itp.unsupported("next() of symbolic iterable")
    if isinstance(v, IterV) and v.kind == "iter" and isinstance(v.parts[0], ListV):
        src = v.parts[0]
        e = M.list_content(itp, st, src)
        if e:
            st.heap[src.lid] = e[1:]
            return e[0]
        xs = []
    if not xs:
        if len(args) > 1:
            return args[1]
        itp.raise_(st, ExcV("StopIteration"))
    return xs[0]


def iter_(itp, st, args, kw):
    v = itp.prune(st, args[0])
    xs = itp.try_items(st, v)
    if isinstance(xs, list):
        return IterV("iter", (ListV(itp.new(st, tuple(xs))),))
    return IterV("iter", (v,))


def map_(itp, st, args, kw):
    cols = [itp.iter_items(st, a) for a in args[1:]]
    return tuple(itp.call(st, args[0], list(t), {}) for t in zip(*cols))


def filter_(itp, st, args, kw):
    xs = itp.try_items(st, args[1])
    if isinstance(xs, Phi):
        return itp.branch(st, xs.cond, lambda s: filter_(itp, s, [args[0], xs.a], kw),
                          lambda s: filter_(itp, s, [args[0], xs.b], kw))
    out = []
    for x in xs:
        c = itp.truth(st, x if args[0] is None else itp.call(st, args[0], [x], {}))
        d = itp.decide(st, c)
        if d is None:
            return itp.branch(st, c, lambda s: filter_(itp, s, args, kw), lambda s: filter_(itp, s, args, kw))
        if d:
            out.append(x)
    return tuple(out)


def round_(itp, st, args, kw):
    v = M.val(itp, st, args[0])
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and len(args) == 1:
        return round(v)
    return NF.of(app("round", M.term(itp, st, v)))


def range_(itp, st, args, kw):
    a = [M.val(itp, st, x) for x in args]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)


def issubclass_(itp, st, args, kw):
    c, t = args
    if isinstance(t, tuple):
        return any(issubclass_(itp, st, [c, x], {}) for x in t)
    if isinstance(c, Cls) and isinstance(t, Cls):
        return t in c.mro
    if isinstance(c, Cls) and isinstance(t, ExcCls):
        return any(isinstance(b, ExcCls) and itp.exc_match(ExcV(b.name), t) for b in c.mro)
    if isinstance(t, Model) and t.name == "object":
        return True
    return False


def build(itp):
    out = {}

    def reg(name, fn):
        out[name] = Model(name, fn)
    reg("len", lambda i, s, a, k: M.length(i, s, a[0]))
    reg("range", range_)
    reg("enumerate", lambda i, s, a, k: IterV("enumerate", (a[0],), a[1] if len(a) > 1 else k.get("start", 0)))
    reg("zip", lambda i, s, a, k: IterV("zip", tuple(a)))
    reg("reversed", lambda i, s, a, k: IterV("reversed", (a[0],)))
    reg("isinstance", lambda i, s, a, k: isinstance_(i, s, a[0], a[1]))
    reg("issubclass", issubclass_)
    reg("hasattr", lambda i, s, a, k: hasattr_(i, s, a[0], a[1]))
    reg("getattr", getattr_)
    reg("setattr", lambda i, s, a, k: i.setattr(s, a[0], a[1], a[2]))
    reg("delattr", lambda i, s, a, k: i.unsupported("delattr"))
    reg("callable", lambda i, s, a, k: callable_(i, s, a[0]))
    reg("min", _minmax(False))
    reg("max", _minmax(True))
    reg("abs", lambda i, s, a, k: A.elementwise(i, s, S.fabs, a[0]))
    reg("sum", sum_)
    reg("any", anyall(False))
    reg("all", anyall(True))
    reg("sorted", lambda i, s, a, k: ListV(i.new(s, tuple(sort_items(i, s, list(i.iter_items(s, a[0])), k.get("key"),
                                                                   k.get("reverse", False))))))
    reg("filter", filter_)
    reg("map", map_)
    reg("list", seq("list"))
    reg("tuple", seq("tuple"))
    reg("set", seq("set"))
    reg("frozenset", seq("set"))
    reg("dict", dict_)
    reg("str", lambda i, s, a, k: M.pystr(i, s, a[0]) if a else "")
    reg("repr", lambda i, s, a, k: M.pyrepr(i, s, a[0]))
    reg("format", lambda i, s, a, k: M.pystr(i, s, a[0]))
    reg("int", int_)
    reg("float", float_)
    reg("bool", lambda i, s, a, k: i.truth(s, a[0]) if a else False)
    reg("type", type_)
    reg("super", super_)
    reg("property", property_)
    reg("staticmethod", lambda i, s, a, k: StaticM(a[0]))
    reg("classmethod", lambda i, s, a, k: ClassM(a[0]))
    reg("print", lambda i, s, a, k: None)
    reg("iter", iter_)
    reg("next", next_)
    reg("id", lambda i, s, a, k: Opaque(("id", M.term(i, s, a[0]))))
    reg("hash", lambda i, s, a, k: Opaque(("hash", M.term(i, s, a[0]))))
    reg("object", lambda i, s, a, k: Opaque(("object", next(i.ids))))
    reg("round", round_)
    reg("pow", lambda i, s, a, k: M.binop(i, s, "Pow", a[0], a[1]))
    reg("divmod", lambda i, s, a, k: (M.binop(i, s, "FloorDiv", a[0], a[1]), M.binop(i, s, "Mod", a[0], a[1])))
    reg("slice", lambda i, s, a, k: SliceV(None, a[0], None) if len(a) == 1 else SliceV(*(list(a) + [None])[:3]))
    reg("vars", lambda i, s, a, k: i.getattr(s, a[0], "__dict__"))
    reg("globals", lambda i, s, a, k: i.unsupported("globals"))
    reg("locals", lambda i, s, a, k: i.unsupported("locals"))
    reg("bytes", lambda i, s, a, k: i.unsupported("bytes"))
    out["NotImplemented"] = Ext("NotImplemented")
    out["Ellipsis"] = Ellipsis
    out["__name__"] = "__analysed__"
    return out
