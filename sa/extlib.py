"""Meaning of numpy / math / functools / numba / scipy calls on abstract values."""
from __future__ import annotations

from fractions import Fraction

from . import arrays as A
from . import npmodel as M
from . import scalars as S
from .nf import (NEG, NF, POS, ZERO, F, and_, app, boolean, cmp_, not_, or_)
from .scalars import INF, NAN, is_scalar
from .values import (UNDEF, Arr, Bound, ClassM, Cls, DictV, ExcV, Ext, Func, ListV, Model, Obj, Opaque,
                     Partial, Phi, RangeV, SArr, SContent, SliceV, is_truthlike, leaves, lift, mk_phi, same)

NP = {}
ARRAYISH = (Arr, SArr, ListV, tuple, RangeV)


def npf(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


def as_arr(itp, st, x, copy=False):
    return A.to_array(itp, st, x, copy)


def shape_of(itp, st, x):
    """shape argument -> dims list with 'n' for the state dimension"""
    x = itp.prune(st, x)
    xs = itp.iter_items(st, x) if isinstance(x, (tuple, ListV, Arr)) else [x]
    out = []
    for v in xs:
        v = A.as_int(itp, st, v)
        if isinstance(v, int):
            out.append(v)
        elif isinstance(v, NF) and v == A.N:
            out.append("n")
        else:
            out.append(v)
    return out


def mk_filled(itp, st, d, fill, tag="tmp"):
    symb = [x for x in d if not isinstance(x, int) and x != "n"]
    if symb:
        for x in symb:
            if isinstance(x, Phi):
                return itp.branch(
                    st, x.cond,
                    lambda s: mk_filled(itp, s, [x.a if y is x else y for y in d], fill, tag),
                    lambda s: mk_filled(itp, s, [x.b if y is x else y for y in d], fill, tag))
        if isinstance(d[0], (int, str)) or len(d) > 2 or (len(d) == 2 and d[1] != "n"):
            itp.unsupported(f"array of shape {d}")
        sid = itp.new(st, SContent(("new", NF.of(fill(0)) if fill(0) is not None else None), ()))
        itp.storage_tag[sid] = "sarr"
        return SArr(sid, d[0], "v" if len(d) == 2 else "s")
    n = 1
    for x in d:
        if x != "n":
            n *= x
    if d.count("n") > 1:
        itp.unsupported("square array over the state dimension")
    shape, symax = A.from_dims(d)
    a = A.alloc(itp, st, [0] * n, shape, symax, tag)
    vals = []
    for i in range(n):
        f = fill(i)
        if f is None:
            f = NF.of(app("uninit", a.sid, i, kind="v" if symax is not None else "s"))
        vals.append(f)
    st.heap[a.sid] = tuple(vals)
    return a


def element_type(dtype, default=None):
    """conversion made by storing into an array of this dtype: None for double precision"""
    if dtype is None:
        return default
    n = dtype if isinstance(dtype, str) else dtype.name if isinstance(dtype, Model) else \
        dtype.path.split(".")[-1] if isinstance(dtype, Ext) else ""
    n = n.lstrip("<>=|")
    if n in ("int", "int_", "intp", "intc", "i", "l", "q", "longlong") or n.startswith(("int", "uint", "i4", "i8", "u4", "u8")):
        return "int"
    if n in ("float32", "float16", "single", "half", "f4", "f2", "f", "e"):
        return "float32"
    return None


def all_ints(itp, st, x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    if isinstance(x, (ListV, tuple)):
        items = itp.try_items(st, x)
        return isinstance(items, (list, tuple)) and bool(items) and all(all_ints(itp, st, i) for i in items)
    return isinstance(x, Arr) and itp.elem_cast.get(x.sid) == "int"


@npf("array", "asarray", "asfarray", "ascontiguousarray", "asanyarray", "require")
def np_array(itp, st, args, kw, name="array"):
    x = args[0]
    copy = name == "array" and kw.get("copy", True) is not False
    r = A.to_array(itp, st, x, copy)
    if isinstance(r, Arr):
        dtype = arg(args, kw, 1, "dtype", None)
        have = itp.elem_cast.get(r.sid)
        want = element_type(dtype, "int" if name != "asfarray" and all_ints(itp, st, x) else have)
        if want != have:
            if isinstance(x, Arr) and r.sid == x.sid:
                r = A.alloc(itp, st, A.cells(itp, st, r), r.shape, r.symax)
            itp.elem_cast.pop(r.sid, None)
            A.casting(itp, st, r, want)
    elif isinstance(r, SArr) and element_type(arg(args, kw, 1, "dtype", None)):
        r = A.elementwise(itp, st, lambda v: A.cast(element_type(arg(args, kw, 1, "dtype")), v), r)
    ndmin = 1 if name == "ascontiguousarray" else kw.get("ndmin", 0)
    if ndmin == 1 and isinstance(r, Arr) and r.ndim == 0:
        r = Arr(r.sid, r.idx, (1,), None)
    elif ndmin not in (0, 1):
        itp.unsupported(f"ndmin={ndmin!r}")
    return r


@npf("copy")
def np_copy(itp, st, args, kw, name=""):
    return A.to_array(itp, st, args[0], True)


@npf("atleast_1d")
def np_at1(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    if isinstance(a, Arr) and a.ndim == 0:
        return Arr(a.sid, a.idx, (1,), None)
    return a


@npf("atleast_2d")
def np_at2(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    while isinstance(a, Arr) and a.ndim < 2:
        a = Arr(a.sid, a.idx, (1,) + a.shape, None if a.symax is None else a.symax + 1)
    return a


@npf("empty", "zeros", "ones", "full")
def np_new(itp, st, args, kw, name="empty"):
    d = shape_of(itp, st, arg(args, kw, 0, "shape"))
    if name == "full":
        fv = M.val(itp, st, arg(args, kw, 1, "fill_value"))
        r = mk_filled(itp, st, d, lambda i: fv)
        dtype = arg(args, kw, 2, "dtype", None)
        kind = element_type(dtype, "int" if all_ints(itp, st, fv) else None)
    else:
        r = mk_filled(itp, st, d, {"empty": lambda i: None, "zeros": lambda i: Fraction(0),
                                   "ones": lambda i: Fraction(1)}[name])
        kind = element_type(arg(args, kw, 1, "dtype", None))
    return A.casting(itp, st, r, kind)


@npf("empty_like", "zeros_like", "ones_like", "full_like")
def np_like(itp, st, args, kw, name="empty_like"):
    a = as_arr(itp, st, args[0])
    if isinstance(a, SArr):
        base = {"zeros_like": Fraction(0), "ones_like": Fraction(1)}.get(name)
        sid = itp.new(st, SContent(("new", None if base is None else NF.of(base)), ()))
        itp.storage_tag[sid] = "sarr"
        return SArr(sid, M.sarr_len(a), a.row)
    kind = element_type(kw.get("dtype"), itp.elem_cast.get(a.sid))
    if kw.get("shape") is not None:
        d = shape_of(itp, st, kw["shape"])
    else:
        d = A.dims(a)
    if name == "full_like":
        fv = M.val(itp, st, arg(args, kw, 1, "fill_value"))
        return A.casting(itp, st, mk_filled(itp, st, d, lambda i: fv), kind)
    r = mk_filled(itp, st, d, {"empty_like": lambda i: None, "zeros_like": lambda i: Fraction(0),
                              "ones_like": lambda i: Fraction(1)}[name])
    return A.casting(itp, st, r, kind)


@npf("eye", "identity")
def np_eye(itp, st, args, kw, name=""):
    n = A.as_int(itp, st, args[0])
    if not isinstance(n, int):
        return Opaque(("eye", M.term(itp, st, args[0])), note="")
    return A.alloc(itp, st, [Fraction(int(i == j)) for i in range(n) for j in range(n)], (n, n))


@npf("arange")
def np_arange(itp, st, args, kw, name=""):
    a = [M.val(itp, st, x) for x in args]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else kw.get("step", 1))
    xs = [A.as_int(itp, st, x) for x in (start, stop, step)]
    if all(isinstance(x, int) for x in xs):
        r = list(range(*xs))
        return A.casting(itp, st, A.alloc(itp, st, r, (len(r),)), element_type(kw.get("dtype"), "int"))
    # symbolic start with a concrete count
    n = S.arith("Div", S.arith("Sub", NF.of(stop), NF.of(start)), NF.of(step))
    n = A.as_int(itp, st, n)
    if isinstance(n, Fraction):
        n = -((-n.numerator) // n.denominator)
    if isinstance(n, int):
        return A.alloc(itp, st, [S.arith("Add", start, S.arith("Mult", step, i)) for i in range(n)], (n,))
    itp.unsupported("arange bounds")


@npf("linspace")
def np_linspace(itp, st, args, kw, name=""):
    a, b = (M.val(itp, st, x) for x in args[:2])
    n = A.as_int(itp, st, arg(args, kw, 2, "num", 50))
    if not isinstance(n, int):
        itp.unsupported("linspace count")
    end = arg(args, kw, 3, "endpoint", True)
    m = n - 1 if end is not False else n
    d = S.arith("Sub", b, a)
    out = [S.arith("Add", a, S.arith("Mult", d, Fraction(i, m))) if m else a for i in range(n)]
    return A.alloc(itp, st, out, (n,))


@npf("concatenate", "hstack")
def np_concat(itp, st, args, kw, name=""):
    parts = [as_arr(itp, st, p) for p in itp.iter_items(st, args[0])]
    for i, p in enumerate(parts):
        if isinstance(p, Phi):
            mk = lambda z: tuple(z if k == i else q for k, q in enumerate(parts))
            return itp.branch(st, p.cond, lambda s: np_concat(itp, s, [mk(p.a)], kw),
                              lambda s: np_concat(itp, s, [mk(p.b)], kw))
    if any(isinstance(p, SArr) for p in parts):
        return M.sarr_concat(itp, st, parts)
    parts = [p if p.ndim else Arr(p.sid, p.idx, (1,), None) for p in parts] if name == "hstack" else parts
    d0 = None
    cs = []
    n = 0
    for p in parts:
        d = A.dims(p)
        if d and d[0] == 0 and not p.idx and len(d) == 1 and len(parts) > 1:
            if d0 is not None and len(d0) == 0:
                continue
        if not d:
            itp.raise_(st, ExcV("ValueError", ("zero-dimensional arrays cannot be concatenated",)))
        if d[0] == "n":
            itp.unsupported("concatenation along the state axis")
        if d0 is None:
            d0 = d[1:]
        elif d0 != d[1:]:
            itp.eff(st, "shape", f"concatenate {d0} {d[1:]}")
            itp.raise_(st, ExcV("ValueError", ("all the input array dimensions must match",)))
        n += d[0]
        cs += A.cells(itp, st, p)
    shape, symax = A.from_dims([n] + (d0 or []))
    return A.alloc(itp, st, cs, shape, symax)


@npf("append")
def np_append(itp, st, args, kw, name=""):
    b = as_arr(itp, st, args[1])
    if isinstance(b, Arr) and b.ndim == 0:
        b = Arr(b.sid, b.idx, (1,), None)
    return np_concat(itp, st, [(args[0], b)], kw)


@npf("vstack", "stack", "row_stack")
def np_vstack(itp, st, args, kw, name=""):
    parts = [as_arr(itp, st, p) for p in itp.iter_items(st, args[0])]
    if name == "stack" or all(isinstance(p, Arr) and p.ndim == 1 for p in parts):
        return A.to_array(itp, st, tuple(parts), True)
    return np_concat(itp, st, [tuple(parts)], kw)


@npf("repeat")
def np_repeat(itp, st, args, kw, name=""):
    n = A.as_int(itp, st, args[1])
    x = as_arr(itp, st, args[0])
    if not isinstance(n, int) or x.symax is not None or x.ndim > 1:
        itp.unsupported("repeat")
    cs = A.cells(itp, st, x)
    return A.alloc(itp, st, [c for c in cs for _ in range(n)])


@npf("tile")
def np_tile(itp, st, args, kw, name=""):
    x = as_arr(itp, st, args[0])
    cs = A.cells(itp, st, x)
    reps = args[1]
    rs = [A.as_int(itp, st, r) for r in (itp.iter_items(st, reps) if isinstance(reps, (tuple, ListV)) else [reps])]
    if x.symax is None and x.ndim <= 1 and len(rs) == 1:
        return A.alloc(itp, st, cs * rs[0])
    if x.symax is None and x.ndim == 1 and len(rs) == 2:
        return A.alloc(itp, st, cs * (rs[0] * rs[1]), (rs[0], len(cs) * rs[1]))
    itp.unsupported("tile")


def _scan(itp, st, args, kw, op, unit):
    x = as_arr(itp, st, args[0])
    axis = arg(args, kw, 1, "axis")
    if x.ndim != 1 or x.symax is not None:
        if axis == 0 and x.symax is None and x.ndim == 2 or axis == 0 and x.symax:
            r, acc = [], None
            k = x.shape[0]
            w = len(x.idx) // k
            cs = A.cells(itp, st, x)
            for i in range(k):
                row = cs[i * w:(i + 1) * w]
                acc = row if acc is None else [S.arith(op, p, q) for p, q in zip(acc, row)]
                r += acc
            return A.alloc(itp, st, r, x.shape, x.symax)
        itp.unsupported("scan")
    acc, out = None, []
    for c in A.cells(itp, st, x):
        acc = c if acc is None else lift(lambda p, q: S.arith(op, p, q), acc, c)
        out.append(acc)
    return A.alloc(itp, st, out)


@npf("cumsum")
def np_cumsum(itp, st, args, kw, name=""):
    return _scan(itp, st, args, kw, "Add", 0)


@npf("cumprod")
def np_cumprod(itp, st, args, kw, name=""):
    return _scan(itp, st, args, kw, "Mult", 1)


@npf("diff")
def np_diff(itp, st, args, kw, name=""):
    x = as_arr(itp, st, args[0])
    n = x.shape[0]
    return M.binop(itp, st, "Sub", A.getitem(itp, st, x, SliceV(1, None, None)),
                   A.getitem(itp, st, x, SliceV(0, n - 1, None)))


# ---------------------------------------------------------------- reductions

def reduce_(itp, st, x, axis, cellred, vecred, keepdims=False, empty=None):
    """cellred: fold of a list of cells; vecred: reduction of one cell over the state axis"""
    a = as_arr(itp, st, x)
    if isinstance(a, SArr):
        return None
    d = A.dims(a)
    cs = A.cells(itp, st, a)
    if axis is None:
        axes = list(range(len(d)))
    else:
        ax = itp.prune(st, axis)
        axes = [A.as_int(itp, st, q) for q in (ax if isinstance(ax, tuple) else (ax,))]
        axes = [q % len(d) for q in axes]
    conc = [i for i, z in enumerate(d) if z != "n"]
    keep = [i for i in range(len(d)) if i not in axes]
    from itertools import product
    strides, acc = {}, 1
    for i in reversed(conc):
        strides[i] = acc
        acc *= d[i]
    red_c = [i for i in axes if i in conc]
    keep_c = [i for i in keep if i in conc]
    out = []
    for kc in product(*[range(d[i]) for i in keep_c]):
        base = sum(j * strides[i] for i, j in zip(keep_c, kc))
        lst = [cs[base + sum(j * strides[i] for i, j in zip(red_c, rc))]
               for rc in product(*[range(d[i]) for i in red_c])]
        if red_c:
            if not lst and empty is None:
                itp.raise_(st, ExcV("ValueError", ("zero-size array to reduction operation",)))
            v = cellred(lst) if lst else empty
        else:
            v = lst[0]
        if a.symax is not None and a.symax in axes:
            v = lift(vecred, v)
        out.append(v)
    nd = [d[i] for i in keep]
    if keepdims:
        nd = [1 if i in axes else d[i] for i in range(len(d))]
    if not nd:
        return out[0]
    shape, symax = A.from_dims(nd)
    return A.alloc(itp, st, out, shape, symax)


def fold(op):
    def f(xs):
        acc = xs[0]
        for x in xs[1:]:
            acc = lift(lambda p, q: S.arith(op, p, q), acc, x)
        return acc
    return f


def _sum_vec(x):
    return S.arith("Mult", A.N, S.mean(x)) if isinstance(x, NF) and x.is_vec() else S.arith("Mult", A.N, S.tonum(x))


@npf("sum", "nansum")
def np_sum(itp, st, args, kw, name=""):
    xs = itp.prune(st, args[0])
    r = reduce_(itp, st, xs, arg(args, kw, 1, "axis"), fold("Add"), _sum_vec, kw.get("keepdims", False), 0)
    if r is None:
        return NF.of(app("sum", M.term(itp, st, xs)))
    return r


@npf("mean", "average")
def np_mean(itp, st, args, kw, name=""):
    def cr(cs):
        return lift(lambda v: S.arith("Div", v, len(cs)), fold("Add")(cs))
    return reduce_(itp, st, args[0], arg(args, kw, 1, "axis"), cr, lambda x: S.mean(x), kw.get("keepdims", False))


@npf("prod")
def np_prod(itp, st, args, kw, name=""):
    return reduce_(itp, st, args[0], arg(args, kw, 1, "axis"), fold("Mult"),
                   lambda x: NF.of(app("vprod", NF.of(x))), empty=1)


def _ext(big):
    def cr(cs):
        acc = cs[0]
        for c in cs[1:]:
            acc = lift(lambda p, q: S.maximum(p, q, big), acc, c)
        return acc

    def vr(x):
        x = NF.of(x)
        return NF.of(app("vmax" if big else "vmin", x, sign=x.sign_hint() if x.sign_hint() in ("pos", "nonneg") else None))

    def f(itp, st, args, kw, name=""):
        x = itp.prune(st, args[0])
        if is_scalar(x) and not (isinstance(x, NF) and x.is_vec()):
            return x
        r = reduce_(itp, st, x, arg(args, kw, 1, "axis"), cr, vr)
        if r is None:
            return NF.of(app("amax" if big else "amin", M.term(itp, st, x)))
        return r
    return f


np_max = _ext(True)
np_min = _ext(False)
for _n in ("max", "amax", "nanmax"):
    NP[_n] = np_max
for _n in ("min", "amin", "nanmin"):
    NP[_n] = np_min


def _quant(isall):
    def f(itp, st, args, kw, name=""):
        x = itp.prune(st, args[0])
        tr = lambda c: itp.truth(st, c)

        def vr(c):
            if is_truthlike(c) and isinstance(c, bool):
                return c
            if isinstance(c, F):
                inner = not_(c) if isall else c
                if isinstance(inner, bool):
                    return (not inner) if isall else inner
                b = boolean(("vany", inner))
                return not_(b) if isall else b
            c = NF.of(c)
            b = boolean(("vtruthall" if isall else "vtruthany", c))
            return b

        def cr(cs):
            if any(isinstance(c, NF) and c.is_vec() for c in cs):
                itp.unsupported("any/all over state matrix")
            ts = [tr(c) for c in cs]
            return and_(*ts) if isall else or_(*ts)
        a = as_arr(itp, st, x)
        if isinstance(a, SArr):
            return boolean(("all" if isall else "any", M.term(itp, st, a)))
        if a.ndim == 0:
            return tr(A.cells(itp, st, a)[0])
        r = reduce_(itp, st, a, arg(args, kw, 1, "axis"), cr, vr, empty=isall)
        return r
    return f


NP["all"] = NP["alltrue"] = _quant(True)
NP["any"] = NP["sometrue"] = _quant(False)


@npf("argsort")
def np_argsort(itp, st, args, kw, name=""):
    return sort_perm(itp, st, as_arr(itp, st, args[0]))[0]


@npf("sort")
def np_sort(itp, st, args, kw, name=""):
    return sort_perm(itp, st, as_arr(itp, st, args[0]))[1]


def sort_perm(itp, st, a):
    """stable sort of a short vector: the order is decided by the path condition
    or split into its finitely many cases"""
    if isinstance(a, SArr):
        t = M.term(itp, st, a)
        mk = lambda tag: SArr(_sc(itp, st, (tag, t)), M.sarr_len(a), "s")
        return mk("argsort"), mk("sorted")
    cs = A.cells(itp, st, a)
    n = len(cs)
    if n > 8:
        if not all(isinstance(c, (int, Fraction)) for c in cs):
            itp.unsupported("sort of a long symbolic vector")
    order = []
    for i in range(n):
        j = len(order)
        while j > 0:
            c = itp.truth(st, lift(lambda p, q: S.compare("Lt", p, q), cs[i], cs[order[j - 1]]))
            d = itp.decide(st, c)
            if d is None:
                return itp.branch(st, c, lambda s: sort_perm(itp, s, a), lambda s: sort_perm(itp, s, a))
            if not d:
                break
            j -= 1
        order.insert(j, i)
    return A.alloc(itp, st, list(order), (n,)), A.alloc(itp, st, [cs[i] for i in order], (n,))


def _sc(itp, st, base):
    sid = itp.new(st, SContent(base, ()))
    itp.storage_tag[sid] = "sarr"
    return sid


def _argext(big):
    def f(itp, st, args, kw, name=""):
        a = as_arr(itp, st, args[0])
        if isinstance(a, SArr) or a.symax is not None:
            return NF.of(app("argmax" if big else "argmin", M.term(itp, st, a)))
        cs = A.cells(itp, st, a)
        if not cs:
            itp.raise_(st, ExcV("ValueError", ("attempt to get argmax of an empty sequence",)))
        if all(is_truthlike(c) for c in cs):
            cs = [S.tonum(c) for c in cs]
        best, bi = cs[0], 0
        for i, c in enumerate(cs[1:], 1):
            cond = itp.truth(st, lift(lambda p, q: S.compare("Gt" if big else "Lt", p, q), c, best))
            best = mk_phi(cond, c, best)
            bi = mk_phi(cond, i, bi)
        return bi
    return f


NP["argmax"] = _argext(True)
NP["argmin"] = _argext(False)


@npf("searchsorted")
def np_searchsorted(itp, st, args, kw, name=""):
    """number of entries of the (assumed sorted) vector below (left) / not above (right)"""
    a = as_arr(itp, st, args[0])
    side = arg(args, kw, 2, "side", "left")
    v = M.val(itp, st, args[1])
    if isinstance(a, SArr) or a.symax is not None:
        return NF.of(app("searchsorted", M.term(itp, st, a), NF.of(v), side, sign="nonneg"))
    if not is_scalar(v):
        return A.elementwise(itp, st, lambda q: np_searchsorted(itp, st, [a, q, side], {}), args[1])
    cs = A.cells(itp, st, a)
    out = 0
    for i, c in enumerate(cs):
        cond = lift(lambda p, q: S.compare("Lt" if side == "left" else "LtE", p, q), c, v)
        out = mk_phi(itp.truth(st, S.phi_bool(cond)), i + 1, out)
    return out


# -------------------------------------------------------------- elementwise

def ew(fn, n=1):
    def f(itp, st, args, kw, name=""):
        r = A.elementwise(itp, st, fn, *args[:n])
        out = kw.get("out") or (args[n] if len(args) > n else None)
        if out is not None:
            A.assign_into(itp, st, out, r)
            return out
        return r
    return f


def _bin(op):
    def f(itp, st, args, kw, name=""):
        r = M.binop(itp, st, op, args[0], args[1])
        out = kw.get("out")
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            A.assign_into(itp, st, out, r)
            return out
        return r
    return f


def _appfn(name, sign=None):
    def f(x):
        if isinstance(x, (F, bool)):
            x = S.tonum(x)
            return lift(f, x)
        if isinstance(x, float):
            return NF.of(app(name, str(x)))
        x = NF.of(x)
        return NF.of(app(name, x, kind="v" if x.is_vec() else "s", sign=sign))
    return f


def _isnan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, NF) and not x.is_const():
        return boolean(("isnan", x))
    return False


def _isfinite(x):
    if isinstance(x, float):
        return False
    if isinstance(x, NF) and not x.is_const():
        return boolean(("isfinite", x))
    return True


def _isinf(x):
    if isinstance(x, float):
        return x == x
    if isinstance(x, NF) and not x.is_const():
        return boolean(("isinf", x))
    return False


for _n, _f in {"abs": S.fabs, "absolute": S.fabs, "fabs": S.fabs, "sqrt": S.sqrt, "sign": S.sgn,
               "negative": S.negate, "square": lambda x: S.arith("Mult", x, x),
               "reciprocal": lambda x: S.arith("Div", 1, x),
               "exp": _appfn("exp", "pos"), "log": _appfn("log"), "log10": _appfn("log10"),
               "sin": _appfn("sin"), "cos": _appfn("cos"), "floor": _appfn("floor"), "ceil": _appfn("ceil"),
               "rint": _appfn("rint"), "trunc": _appfn("trunc"), "cbrt": lambda x: NF.of(x).pow(Fraction(1, 3)),
               "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
               "logical_not": lambda x: not_(x) if is_truthlike(x) else S.compare("Eq", x, 0),
               "invert": lambda x: not_(x) if is_truthlike(x) else ~x,
               "float64": lambda x: S.tonum(x), "float32": lambda x: S.tonum(x), "float_": lambda x: S.tonum(x),
               "real": lambda x: x}.items():
    NP[_n] = ew(_f)
for _n, _op in {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
                "power": "Pow", "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv",
                "matmul": "MatMult"}.items():
    NP[_n] = _bin(_op)
for _n, _op in {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq",
                "not_equal": "NotEq"}.items():
    NP[_n] = (lambda op: lambda itp, st, args, kw, name="": M.compare(itp, st, op, args[0], args[1]))(_op)
NP["maximum"] = NP["fmax"] = ew(lambda a, b: S.maximum(a, b, True), 2)
NP["minimum"] = NP["fmin"] = ew(lambda a, b: S.maximum(a, b, False), 2)


def _boolof(itp, st):
    return lambda x: x if is_truthlike(x) else itp.truth(st, x)


@npf("logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or")
def np_logic(itp, st, args, kw, name=""):
    b = _boolof(itp, st)
    if name.endswith("and"):
        return A.elementwise(itp, st, lambda x, y: and_(b(x), b(y)), args[0], args[1])
    if name.endswith("xor"):
        return A.elementwise(itp, st, lambda x, y: or_(and_(b(x), not_(b(y))), and_(not_(b(x)), b(y))), args[0], args[1])
    return A.elementwise(itp, st, lambda x, y: or_(b(x), b(y)), args[0], args[1])


@npf("where")
def np_where(itp, st, args, kw, name=""):
    if len(args) == 1:
        return (NP["flatnonzero"](itp, st, args, kw),)
    b = _boolof(itp, st)
    return A.elementwise(itp, st, lambda c, x, y: S.select(b(c), x, y), *args[:3])


@npf("flatnonzero")
def np_flatnonzero(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    p = A.mask_positions(itp, st, a)
    if isinstance(p, tuple):
        return itp.branch(st, p[1], lambda s: np_flatnonzero(itp, s, args, kw),
                          lambda s: np_flatnonzero(itp, s, args, kw))
    return A.alloc(itp, st, p, (len(p),))


@npf("nonzero")
def np_nonzero(itp, st, args, kw, name=""):
    return (np_flatnonzero(itp, st, args, kw),)


@npf("count_nonzero")
def np_cnz(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    return fold("Add")([S.tonum(itp.truth(st, c)) for c in A.cells(itp, st, a)] or [0])


@npf("clip")
def np_clip(itp, st, args, kw, name=""):
    lo, hi = arg(args, kw, 1, "a_min"), arg(args, kw, 2, "a_max")
    r = args[0]
    if lo is not None:
        r = NP["maximum"](itp, st, [r, lo], {})
    if hi is not None:
        r = NP["minimum"](itp, st, [r, hi], {})
    return r


@npf("isclose", "allclose")
def np_isclose(itp, st, args, kw, name="isclose"):
    rtol = M.val(itp, st, arg(args, kw, 2, "rtol", Fraction(1, 10**5)))
    atol = M.val(itp, st, arg(args, kw, 3, "atol", Fraction(1, 10**8)))

    def f(a, b):
        if isinstance(a, float) or isinstance(b, float):
            return a == b
        d = S.fabs(S.arith("Sub", a, b))
        return S.compare("LtE", d, S.arith("Add", atol, S.arith("Mult", rtol, S.fabs(b))))
    r = A.elementwise(itp, st, f, args[0], args[1])
    return NP["all"](itp, st, [r], {}) if name == "allclose" else r


@npf("array_equal")
def np_array_equal(itp, st, args, kw, name=""):
    r = M.compare(itp, st, "Eq", as_arr(itp, st, args[0]), as_arr(itp, st, args[1]))
    return NP["all"](itp, st, [r], {})


# ------------------------------------------------------------------- linalg

@npf("dot", "inner", "vdot")
def np_dot(itp, st, args, kw, name=""):
    r = A.contract(itp, st, args[0], args[1])
    out = kw.get("out") or (args[2] if len(args) > 2 else None)
    if out is not None:
        A.assign_into(itp, st, out, r)
        return out
    return r


@npf("outer")
def np_outer(itp, st, args, kw, name=""):
    a, b = as_arr(itp, st, args[0]), as_arr(itp, st, args[1])
    return M.binop(itp, st, "Mult", A.getitem(itp, st, a, (SliceV(None, None, None), None)),
                   A.getitem(itp, st, b, (None, SliceV(None, None, None))))


@npf("tensordot", "einsum")
def np_td(itp, st, args, kw, name=""):
    if name == "tensordot" and arg(args, kw, 2, "axes", 2) == 1:
        return A.contract(itp, st, args[0], args[1])
    itp.unsupported(name)


@npf("transpose")
def np_T(itp, st, args, kw, name=""):
    return A.transpose(as_arr(itp, st, args[0]))


@npf("triu", "tril")
def np_tri(itp, st, args, kw, name="triu"):
    a = as_arr(itp, st, args[0])
    k = A.as_int(itp, st, arg(args, kw, 1, "k", 0))
    if a.ndim != 2 or a.symax is not None:
        itp.unsupported(name)
    r, c = a.shape
    cs = A.cells(itp, st, a)
    keep = (lambda i, j: j - i >= k) if name == "triu" else (lambda i, j: j - i <= k)
    return A.alloc(itp, st, [cs[i * c + j] if keep(i, j) else Fraction(0) for i in range(r) for j in range(c)], (r, c))


@npf("diag", "diagonal")
def np_diag(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    cs = A.cells(itp, st, a)
    if a.symax is not None:
        itp.unsupported("diag")
    if a.ndim == 2:
        m = min(a.shape)
        return A.alloc(itp, st, [cs[i * a.shape[1] + i] for i in range(m)], (m,))
    m = len(cs)
    return A.alloc(itp, st, [cs[i] if i == j else Fraction(0) for i in range(m) for j in range(m)], (m, m))


@npf("unique")
def np_unique(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    cs = A.cells(itp, st, a)
    if not all(isinstance(c, (int, Fraction)) for c in cs):
        itp.unsupported("unique")
    u = sorted(set(cs))
    return A.alloc(itp, st, u, (len(u),))


@npf("linalg.norm")
def np_norm(itp, st, args, kw, name=""):
    x = as_arr(itp, st, args[0])
    order = arg(args, kw, 1, "ord")
    if isinstance(order, float) and order > 0:
        return np_max(itp, st, [A.elementwise(itp, st, S.fabs, x)], {})
    if order not in (None, 2, Fraction(2)):
        return NF.of(app("norm", M.term(itp, st, x), M.term(itp, st, order), sign="nonneg"))
    sq = A.elementwise(itp, st, lambda c: S.arith("Mult", c, c), x)
    return lift(S.sqrt, np_sum(itp, st, [sq], {}))


def _const_matrix(itp, st, a):
    cs = A.cells(itp, st, a)
    n = a.shape[0]
    if a.symax is None and a.ndim == 2 and all(isinstance(c, (int, Fraction)) for c in cs):
        return [[Fraction(c) for c in cs[i * n:(i + 1) * n]] for i in range(n)]
    return None


def gauss(m, rhs):
    n = len(m)
    m = [list(r) + list(q) for r, q in zip(m, rhs)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        iv = 1 / m[c][c]
        m[c] = [x * iv for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


@npf("linalg.inv")
def np_inv(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    m = _const_matrix(itp, st, a)
    if m is None:
        itp.unsupported("inverse of a symbolic matrix")
    n = len(m)
    r = gauss(m, [[Fraction(int(i == j)) for j in range(n)] for i in range(n)])
    if r is None:
        itp.raise_(st, ExcV("LinAlgError"))
    return A.alloc(itp, st, [x for row in r for x in row], (n, n))


@npf("linalg.solve")
def np_solve(itp, st, args, kw, name=""):
    itp.eff(st, "linsolve", M.term(itp, st, args[0]), M.term(itp, st, args[1]))
    b = itp.prune(st, args[1])
    if isinstance(b, (Arr, NF)) and A.is_arrayish(b):
        kind = "v" if not isinstance(b, Arr) or b.symax is not None else "s"
        ta, tb = M.term(itp, st, args[0]), M.term(itp, st, b)
        if kind == "v":
            return A.vec(itp, st, NF.of(app("solve", ta, tb, kind="v")))
        return A.alloc(itp, st, [NF.of(app("solve", ta, tb, i)) for i in range(b.shape[0])], b.shape)
    return Opaque(("solve", M.term(itp, st, args[0]), M.term(itp, st, b)))


# -------------------------------------------------------------------- shape

@npf("size")
def np_size(itp, st, args, kw, name=""):
    a = itp.prune(st, args[0])
    if is_scalar(a) and not (isinstance(a, NF) and a.is_vec()):
        return 1
    if isinstance(a, SArr) and a.row == "s":
        return M.sarr_len(a)
    a = as_arr(itp, st, a)
    if isinstance(a, SArr):
        return S.arith("Mult", M.sarr_len(a), A.N) if a.row == "v" else M.sarr_len(a)
    r = len(a.idx)
    return S.arith("Mult", r, A.N) if a.symax is not None else r


@npf("ndim")
def np_ndim(itp, st, args, kw, name=""):
    a = itp.prune(st, args[0])
    if is_scalar(a):
        return 1 if isinstance(a, NF) and a.is_vec() else 0
    if isinstance(a, SArr):
        return 2 if a.row == "v" else 1
    return as_arr(itp, st, a).ndim


@npf("shape")
def np_shape(itp, st, args, kw, name=""):
    a = itp.prune(st, args[0])
    if isinstance(a, SArr):
        return (M.sarr_len(a),) + ((A.N,) if a.row == "v" else ())
    a = as_arr(itp, st, a)
    return tuple(A.N if x == "n" else x for x in A.dims(a))


@npf("ravel", "flatten", "squeeze")
def np_ravel(itp, st, args, kw, name="ravel"):
    a = as_arr(itp, st, args[0])
    if isinstance(a, SArr):
        return a
    if name == "squeeze":
        d = [x for x in A.dims(a) if x != 1]
        shape, symax = A.from_dims(d)
        return Arr(a.sid, a.idx, shape, symax)
    if a.symax is not None:
        if len(a.idx) == 1:
            r = Arr(a.sid, a.idx, (), 0)
        else:
            itp.unsupported("ravel of state matrix")
    else:
        r = Arr(a.sid, a.idx, (len(a.idx),), None)
    return A.copy_arr(itp, st, r) if name == "flatten" else r


@npf("reshape")
def np_reshape(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    shp = args[1] if len(args) == 2 else tuple(args[1:])
    d = shape_of(itp, st, shp)
    if isinstance(a, SArr):
        if d == [-1] and a.row == "s":
            return a
        itp.unsupported("reshape")
    if -1 in d:
        if "n" in A.dims(a) and "n" not in d:
            k = len(a.idx)
            for x in d:
                if x != -1:
                    k //= x
            if k == 1:
                d[d.index(-1)] = "n"
            else:
                itp.unsupported("reshape")
        else:
            k = len(a.idx)
            for x in d:
                if x not in (-1, "n"):
                    k //= x
            d[d.index(-1)] = k
    shape, symax = A.from_dims(d)
    n = 1
    for x in shape:
        n *= x
    if n != len(a.idx) or (symax is None) != (a.symax is None):
        itp.raise_(st, ExcV("ValueError", ("cannot reshape",)))
    return Arr(a.sid, a.idx, shape, symax)


@npf("flip", "flipud")
def np_flip(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    if isinstance(a, SArr) or not a.shape:
        itp.unsupported("flip")
    return A.getitem(itp, st, a, SliceV(None, None, -1))


@npf("roll")
def np_roll(itp, st, args, kw, name=""):
    a = as_arr(itp, st, args[0])
    k = A.as_int(itp, st, arg(args, kw, 1, "shift"))
    ax = arg(args, kw, 2, "axis")
    if not isinstance(k, int) or isinstance(a, SArr) or not a.shape or (a.ndim > 1 and ax != 0):
        itp.unsupported("roll")
    n = a.shape[0]
    return A.copy_arr(itp, st, A.take_view(a, [(i - k) % n for i in range(n)]))


@npf("take")
def np_take(itp, st, args, kw, name=""):
    return M.getitem(itp, st, as_arr(itp, st, args[0]), args[1])


@npf("copyto")
def np_copyto(itp, st, args, kw, name=""):
    A.assign_into(itp, st, args[0], args[1])


@npf("may_share_memory", "shares_memory")
def np_share(itp, st, args, kw, name=""):
    return args[0].sid == args[1].sid


@npf("result_type", "promote_types", "dtype", "common_type")
def np_dtype(itp, st, args, kw, name=""):
    return Ext("numpy.float64")


@npf("iscomplexobj", "iscomplex")
def np_cplx(itp, st, args, kw, name=""):
    return False


@npf("isreal", "isrealobj", "issubdtype")
def np_real(itp, st, args, kw, name=""):
    return True


@npf("isscalar")
def np_isscalar(itp, st, args, kw, name=""):
    return is_scalar(args[0])


@npf("nextafter")
def np_nextafter(itp, st, args, kw, name=""):
    return NF.of(app("nextafter", M.term(itp, st, args[0]), M.term(itp, st, args[1])))


@npf("spacing")
def np_spacing(itp, st, args, kw, name=""):
    return A.elementwise(itp, st, _appfn("spacing", "pos"), args[0])


@npf("finfo", "iinfo")
def np_finfo(itp, st, args, kw, name=""):
    return Ext("numpy.finfo()")


@npf("errstate", "seterr")
def np_errstate(itp, st, args, kw, name=""):
    return Opaque(("errstate",))


@npf("int64", "int32", "int_", "intp")
def np_int(itp, st, args, kw, name=""):
    from .builtin_models import to_int
    return A.elementwise(itp, st, to_int, args[0])


@npf("bool_")
def np_bool(itp, st, args, kw, name=""):
    return itp.truth(st, args[0])


# ----------------------------------------------------------------- dispatch

CONSTS = {
    "numpy.inf": INF, "numpy.Inf": INF, "numpy.infty": INF, "numpy.nan": NAN, "numpy.NaN": NAN, "numpy.newaxis": None,
    "math.inf": INF, "math.nan": NAN, "numpy.NINF": -INF,
}


def const(path):
    if path in CONSTS:
        return CONSTS[path]
    if path in ("numpy.pi", "math.pi"):
        return NF.of(app("pi", sign="pos"))
    if path in ("math.e", "numpy.e"):
        return NF.of(app("e", sign="pos"))
    if path in ("numpy.finfo().eps", "sys.float_info.epsilon"):
        return Fraction(1, 2**52)
    if path in ("numpy.finfo().tiny", "sys.float_info.min"):
        return NF.of(app("tiny", sign="pos"))
    if path in ("numpy.finfo().max", "sys.float_info.max"):
        return NF.of(app("hugefloat", sign="pos"))
    return UNDEF


KNOWN_MODULE_ATTRS = {
    "warnings": {"warn", "warn_explicit", "filterwarnings", "simplefilter", "catch_warnings",
                 "showwarning", "resetwarnings", "formatwarning", "WarningMessage"},
}


def ext_attr(itp, st, o, name):
    p = f"{o.path}.{name}"
    if p in itp.ext_attr_sets:
        return itp.ext_attr_sets[p]
    c = const(p)
    if c is not UNDEF:
        return c
    if o.path in KNOWN_MODULE_ATTRS and name not in KNOWN_MODULE_ATTRS[o.path]:
        itp.undefined_externals.add((p, itp.where))
        itp.eff(st, "noattr", p)
        itp.raise_(st, ExcV("AttributeError", (f"module has no attribute {p}",)))
    if name == "__name__":
        return o.path.split(".")[-1]
    return Ext(p)


def split_args(itp, st, args, kw):
    """first argument that is a gate between non-scalars"""
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            a2 = itp.prune(st, a)
            if isinstance(a2, Phi) and not is_scalar(a2):
                return i, a2
    return None


def call_np(itp, st, name, args, kw):
    f = NP.get(name)
    if f is None:
        if name.startswith("random."):
            return Opaque(("random", name, next(itp.ids)))
        itp.unsupported(f"numpy.{name}")
    sp = split_args(itp, st, args, kw)
    if sp:
        i, a = sp
        mk = lambda v: args[:i] + [v] + args[i + 1:]
        return itp.branch(st, a.cond, lambda s: call_np(itp, s, name, mk(a.a), kw),
                          lambda s: call_np(itp, s, name, mk(a.b), kw))
    args = [itp.prune(st, a) for a in args]
    try:
        return f(itp, st, args, kw, name=name) if _wants_name(f) else f(itp, st, args, kw)
    except ZeroDivisionError:
        itp.raise_(st, ExcV("ZeroDivisionError"))


def _wants_name(f):
    return True


MATH = {"fabs": S.fabs, "sqrt": S.sqrt, "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
        "exp": _appfn("exp", "pos"), "log": _appfn("log"), "sin": _appfn("sin"), "cos": _appfn("cos"),
        "floor": _appfn("floor"), "ceil": _appfn("ceil"), "trunc": _appfn("trunc"), "log10": _appfn("log10")}


def jit_spec(itp, st, spec):
    """conversions numba makes when an attribute of a jitclass is assigned"""
    if isinstance(spec, DictV):
        pairs = [(k, itp.getitem(st, spec, k)) for k in itp.iter_items(st, spec)]
    else:
        pairs = [tuple(itp.iter_items(st, x)) for x in itp.iter_items(st, spec)] if spec is not None else []
    out = {}
    for name, t in pairs:
        n = t.path.split(".")[-1] if isinstance(t, Ext) else ""
        kind = "bool" if n in ("bool_", "boolean", "b1") else element_type(t) if isinstance(t, Ext) else None
        if kind and isinstance(name, str):
            out[name] = kind
    return out


IDENT_DECOS = {"numba.njit", "numba.jit", "numba.experimental.jitclass", "numba.jitclass", "numba.generated_jit",
               "numba.vectorize", "numba.extending.overload", "numba.extending.register_jitable"}


def call_ext(itp, st, f, args, kw):
    p = f.path
    h = itp.exthooks.get(p)
    if h is not None:
        return h(itp, st, args, kw)
    if p.startswith("numpy."):
        return call_np(itp, st, p[6:], args, kw)
    root = p.split(".")[0]
    leaf = p.split(".")[-1]
    if root == "math":
        if leaf in MATH:
            return A.elementwise(itp, st, MATH[leaf], args[0])
        if leaf == "copysign":
            a, b = (M.val(itp, st, x) for x in args)
            return lift(lambda x, y: mk_phi(S.compare("GtE", y, 0), S.fabs(x), S.negate(S.fabs(x))), a, b)
        if leaf == "pow":
            return M.binop(itp, st, "Pow", args[0], args[1])
        if leaf == "isclose":
            return boolean(("isclose",) + tuple(M.term(itp, st, a) for a in args))
        if leaf == "hypot":
            a, b = (NF.of(M.val(itp, st, x)) for x in args)
            return S.sqrt(a * a + b * b)
    if p in IDENT_DECOS:
        if args and isinstance(args[0], (Func, Cls, Bound, Obj, Opaque)):
            return args[0]
        if leaf == "jitclass":
            spec = jit_spec(itp, st, arg(args, kw, 0, "spec"))

            def deco(i, s, a, k):
                if spec and isinstance(a[0], Cls):
                    i.jit_specs[a[0].cid] = spec
                return a[0]
            return Model("jit-decorator", deco)
        return Model("jit-decorator", lambda i, s, a, k: a[0])
    if p.endswith(".is_jitted"):
        return True if isinstance(args[0], Func) else boolean(("is_jitted", M.term(itp, st, args[0])))
    if root == "numba":
        if p == "numba.typed.List":
            src = itp.iter_items(st, args[0]) if args else []
            return ListV(itp.new(st, tuple(src)))
        if p == "numba.typed.List.empty_list":
            return ListV(itp.new(st, ()))
        return Ext(f"{p}()")
    if root == "functools":
        if leaf == "wraps":
            def wr(i, s, a, k):
                return a[0]
            return Model("wraps", wr)
        if leaf == "partial":
            return Partial(args[0], tuple(args[1:]), tuple(kw.items()))
        if leaf == "update_wrapper":
            return args[0]
        if leaf in ("lru_cache", "cache", "singledispatch", "total_ordering", "cached_property"):
            if args and isinstance(args[0], (Func, Cls, Bound)):
                if leaf == "cached_property":
                    from .values import Prop
                    return Prop(args[0])
                return args[0]
            return Model("cache", lambda i, s, a, k: a[0])
        if leaf == "reduce":
            xs = itp.iter_items(st, args[1])
            acc = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                acc = itp.call(st, args[0], [acc, x], {})
            return acc
    if root == "warnings":
        itp.eff(st, "warn", tuple(M.term(itp, st, a) for a in args))
        return None
    if root == "abc":
        return args[0]
    if root in ("collections", "typing"):
        if leaf in ("OrderedDict", "defaultdict"):
            return itp.call(st, itp.builtins["dict"], args if leaf != "defaultdict" else args[1:], kw)
        if leaf == "deque":
            r = ListV(itp.new(st, tuple(itp.iter_items(st, args[0])) if args else ()))
            if arg(args, kw, 1, "maxlen") is not None:
                itp.unsupported("bounded deque")
            return r
        if leaf == "cast":
            return args[1]
        return Ext(f"{p}()")
    if p == "operator.index":
        v = itp.prune(st, args[0])
        if isinstance(v, (str, ListV, tuple)) or v is None or isinstance(v, float) or isinstance(v, Fraction) \
                and v.denominator != 1:
            itp.raise_(st, ExcV("TypeError", ("cannot be interpreted as an integer",)))
        return v
    if root == "operator":
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div"}
        cm = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}
        if leaf in ops:
            return M.binop(itp, st, ops[leaf], *args)
        if leaf in cm:
            return M.compare(itp, st, cm[leaf], *args)
        if leaf == "attrgetter":
            return Model("attrgetter", lambda i, s, a, k: i.getattr(s, a[0], args[0]))
        if leaf == "itemgetter":
            return Model("itemgetter", lambda i, s, a, k: i.getitem(s, a[0], args[0]))
    if root in ("importlib", "importlib_metadata"):
        return Opaque(("version",), note="str")
    if p in ("os.environ.get", "os.getenv"):
        return M.environ_get(itp, st, args[0], arg(args, kw, 1, "default"))
    if root == "enum":
        if leaf == "auto":
            return next(itp.ids)
        return args[0] if args else None
    if root == "itertools":
        if leaf == "count":
            return Opaque(("count", next(itp.ids)))
        if leaf == "chain":
            return tuple(x for a in args for x in itp.iter_items(st, a))
        if leaf == "product":
            from itertools import product
            return tuple(product(*[itp.iter_items(st, a) for a in args]))
        if leaf == "repeat" and len(args) == 2:
            return (args[0],) * A.as_int(itp, st, args[1])
        if leaf == "accumulate" and len(args) == 1:
            acc, out = None, []
            for x in itp.iter_items(st, args[0]):
                acc = x if acc is None else M.binop(itp, st, "Add", acc, x)
                out.append(acc)
            return tuple(out)
    if root == "scipy":
        return scipy_call(itp, st, leaf, args, kw)
    if root == "copy" and leaf in ("copy", "deepcopy"):
        v = itp.prune(st, args[0])
        if isinstance(v, (Arr, SArr)):
            return A.to_array(itp, st, v, True)
        if isinstance(v, ListV):
            return ListV(itp.new(st, st.heap[v.lid]), v.kind)
        if isinstance(v, DictV):
            from .interp import DictEntry
            return DictV(itp.new(st, DictEntry(st.heap[v.did])))
        return v
    if root == "sys" or root == "inspect" or root == "types" or root == "numbers":
        return Ext(f"{p}()")
    itp.unsupported(f"external call {p}")


def scipy_call(itp, st, leaf, args, kw):
    """initial-step helpers of SciPy, by contract: uninterpreted results over
    the values they were given"""
    ts = tuple(M.term(itp, st, a) for a in args) + tuple(sorted((k, M.term(itp, st, v)) for k, v in kw.items()))
    if leaf == "select_initial_step":
        itp.eff(st, "select_initial_step", ts, tuple(args))
        return NF.of(app("h0", ts, sign="pos"))
    if leaf == "validate_max_step":
        itp.eff(st, "validate_max_step", ts)
        x = M.val(itp, st, args[0])
        bad = lift(lambda v: S.compare("LtE", v, 0), x)
        itp.raise_if(st, itp.truth(st, S.phi_bool(bad)), ExcV("ValueError", ("`max_step` must be positive.",)))
        return args[0]
    if leaf == "validate_tol":
        itp.eff(st, "validate_tol", ts)
        rtol, atol = args[0], args[1]
        x = M.val(itp, st, rtol)
        eps100 = Fraction(100, 2**52)
        small = itp.truth(st, S.phi_bool(lift(lambda v: S.compare("Lt", v, eps100), x)))
        r = mk_phi(small, eps100, x)
        neg = itp.truth(st, NP["any"](itp, st, [M.compare(itp, st, "Lt", atol, 0)], {}))
        itp.raise_if(st, neg, ExcV("ValueError", ("`atol` must be positive.",)))
        return (r, atol)
    if leaf == "validate_first_step":
        return args[0]
    itp.eff(st, "scipy", leaf, ts)
    return Opaque(("scipy", leaf, ts))
