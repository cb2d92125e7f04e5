"""Arrays of the value graph: views over storages of normal forms, so that
aliasing and in-place updates are modelled."""
from __future__ import annotations

from fractions import Fraction
from itertools import product

from . import scalars as S
from .nf import NF, F, and_, app, boolean, cmp_, not_, or_, sym, POS, ZERO, NEG
from .values import (UNDEF, Arr, DictV, EnumVal, ExcV, ListV, Opaque, Phi, RangeV, SArr, SContent,
                     SliceV, Unsupported, is_truthlike, leaves, lift, mk_phi)

N_ATOM = sym("N", "s", "pos")
N = NF.of(N_ATOM)


# ------------------------------------------------------------------- storage

def alloc(itp, st, cells, shape=None, symax=None, tag="tmp"):
    cells = tuple(cells)
    sid = itp.new(st, cells)
    itp.storage_tag[sid] = tag
    if shape is None:
        shape = (len(cells),)
    return Arr(sid, tuple(range(len(cells))), tuple(shape), symax)


def vec(itp, st, nf, tag="tmp"):
    return alloc(itp, st, (nf,), (), 0, tag)


def zero_d(itp, st, nf, tag="tmp"):
    return alloc(itp, st, (nf,), (), None, tag)


def cells(itp, st, a):
    e = st.heap[a.sid]
    out = []
    upd = None
    for i in a.idx:
        v = e[i]
        if isinstance(v, Phi):
            v2 = itp.prune(st, v)
            if v2 is not v:
                upd = upd or list(e)
                upd[i] = v2
            v = v2
        out.append(v)
    if upd is not None:
        st.heap[a.sid] = tuple(upd)
    return out


def cast(kind, v):
    """value stored into an array of a narrower element type"""
    if isinstance(v, Phi):
        return lift(lambda x: cast(kind, x), v)
    if kind == "int":
        from .builtin_models import to_int
        if isinstance(v, NF) and v.is_vec():
            return NF.of(app("int", v, kind="v"))
        return to_int(v)
    x = NF.of(v)
    return v if x.is_const() else NF.of(app(kind, x, kind="v" if x.is_vec() else "s"))


def casting(itp, st, a, kind):
    """the new array `a` gets elements of type `kind`"""
    if kind and isinstance(a, Arr):
        itp.elem_cast[a.sid] = kind
        st.heap[a.sid] = tuple(cast(kind, v) for v in st.heap[a.sid])
    return a


def write(itp, st, a, vals):
    kind = itp.elem_cast.get(a.sid)
    if kind:
        vals = [cast(kind, v) for v in vals]
    e = list(st.heap[a.sid])
    for i, v in zip(a.idx, vals):
        e[i] = v
    st.heap[a.sid] = tuple(e)
    itp.eff(st, "write", a.sid, a.idx, tuple(vals))
    for other in itp.may_alias.get(a.sid, ()):
        if other in st.heap and isinstance(st.heap[other], tuple):
            b = boolean(app("mayalias", str(a.sid), str(other)))
            st.heap[other] = tuple(Phi(b, UNDEF if False else NF.of(app("clobbered", str(other), i)), c)
                                   for i, c in enumerate(st.heap[other]))
            itp.eff(st, "write", other, None, ("may-alias",))


def dims(a):
    d = list(a.shape)
    if a.symax is not None:
        d.insert(a.symax, "n")
    return d


def from_dims(d):
    if "n" in d:
        i = d.index("n")
        return tuple(x for x in d if x != "n"), i
    return tuple(d), None


def is_arrayish(x):
    return isinstance(x, Arr) or (isinstance(x, NF) and x.is_vec())


def logical(itp, st, x):
    """(dims, cells row-major over the concrete dims)"""
    if isinstance(x, Arr):
        return dims(x), cells(itp, st, x)
    if isinstance(x, (ListV, tuple)):
        return logical(itp, st, to_array(itp, st, x))
    if isinstance(x, NF) and x.is_vec():
        return ["n"], [x]
    if isinstance(x, Opaque):
        return [], [NF.of(app("val", x.term))]
    return [], [x]


def bdims(a, b):
    out = []
    la, lb = len(a), len(b)
    for i in range(max(la, lb)):
        x = a[la - 1 - i] if i < la else 1
        y = b[lb - 1 - i] if i < lb else 1
        if x == y:
            out.append(x)
        elif x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        else:
            raise ShapeError(f"{a} vs {b}")
    return out[::-1]


class ShapeError(Exception):
    pass


def conc(d):
    return [x for x in d if x != "n"]


def expand(d, cs, od):
    """cells of an array of dims d broadcast to od (row-major over concrete dims of od)"""
    if d == od:
        return cs
    pad = len(od) - len(d)
    dd = [1] * pad + list(d)
    # strides over concrete dims of dd
    strides = []
    acc = 1
    for x in reversed(dd):
        if x == "n":
            strides.append(None)
        else:
            strides.append(acc)
            acc *= x
    strides = strides[::-1]
    out = []
    rngs = []
    st_ = []
    for x, s, o in zip(dd, strides, od):
        if o == "n":
            continue
        rngs.append(range(o))
        st_.append(0 if x == 1 or s is None else s)
    for ix in product(*rngs):
        out.append(cs[sum(i * s for i, s in zip(ix, st_))])
    return out


def elementwise(itp, st, fn, *ops):
    """apply fn to broadcast cells; scalars in -> scalar out"""
    if any(isinstance(o, Phi) and any(isinstance(l, (Arr, ListV, tuple)) for l in leaves(o)) for o in ops):
        for o in ops:
            if isinstance(o, Phi) and any(isinstance(l, (Arr, ListV, tuple)) for l in leaves(o)):
                c = o.cond
                pick = lambda s, side: elementwise(
                    itp, s, fn, *[(x.a if side else x.b) if x is o else x for x in ops])
                return itp.branch(st, c, lambda s: pick(s, True), lambda s: pick(s, False))
    if any(isinstance(o, SArr) for o in ops):
        return sarr_elementwise(itp, st, fn, ops)
    ls = [logical(itp, st, o) for o in ops]
    try:
        od = ls[0][0]
        for d, _ in ls[1:]:
            od = bdims(od, d)
    except ShapeError as e:
        itp.eff(st, "shape", str(e))
        itp.raise_(st, ExcV("ValueError", ("operands could not be broadcast",)))
    if not od:
        return S_lift(itp, st, fn, *[c[0] for _, c in ls])
    cols = [expand(d, c, od) for d, c in ls]
    out = [S_lift(itp, st, fn, *t) for t in zip(*cols)]
    shape, symax = from_dims(od)
    return alloc(itp, st, out, shape, symax)


def S_lift(itp, st, fn, *args):
    args = [itp.prune(st, a) for a in args]
    return lift(fn, *args)


def sarr_elementwise(itp, st, fn, ops):
    terms = tuple(itp.np.term(itp, st, o) for o in ops)
    a = [o for o in ops if isinstance(o, SArr)][0]
    sid = itp.new(st, SContent(("map", getattr(fn, "__name__", "fn"), terms), ()))
    itp.storage_tag[sid] = "sarr"
    return SArr(sid, a.length, a.row)


# ------------------------------------------------------------- construction

def copy_arr(itp, st, a, tag="tmp"):
    r = alloc(itp, st, cells(itp, st, a), a.shape, a.symax, tag)
    if a.sid in itp.elem_cast:
        itp.elem_cast[r.sid] = itp.elem_cast[a.sid]
    return r


def to_array(itp, st, x, copy=False, tag="tmp"):
    x = itp.prune(st, x)
    if isinstance(x, Phi) and not (S.is_scalar(x) and not any(isinstance(l, NF) and l.is_vec() for l in leaves(x))):
        return itp.branch(st, x.cond, lambda s: to_array(itp, s, x.a, copy, tag),
                          lambda s: to_array(itp, s, x.b, copy, tag))
    if isinstance(x, Arr):
        return copy_arr(itp, st, x, tag) if copy else x
    if isinstance(x, SArr):
        if copy:
            sid = itp.new(st, SContent(("copy", itp.np.freeze_sarr(itp, st, x)), ()))
            itp.storage_tag[sid] = tag
            return SArr(sid, x.length, x.row)
        return x
    if isinstance(x, NF) and x.is_vec():
        return vec(itp, st, x, tag)
    if S.is_scalar(x):
        return zero_d(itp, st, x, tag)
    if isinstance(x, (ListV, tuple, RangeV)) or (isinstance(x, DictV)):
        items = itp.try_items(st, x)
        if isinstance(items, Phi):
            c = items
            return itp.branch(st, c.cond, lambda s: to_array(itp, s, c.a, copy, tag),
                              lambda s: to_array(itp, s, c.b, copy, tag))
        if items is None:
            return itp.np.sarr_of_list(itp, st, x)
        if not items:
            return alloc(itp, st, (), (0,), None, tag)
        subs = [logical(itp, st, i if not isinstance(i, (ListV, tuple)) else to_array(itp, st, i)) for i in items]
        # gates between arrays are not expected inside literals
        d0 = subs[0][0]
        if any(isinstance(i, Phi) and any(isinstance(l, (Arr, ListV, tuple)) for l in leaves(i)) for i in items):
            k = [j for j, i in enumerate(items) if isinstance(i, Phi)
                 and any(isinstance(l, (Arr, ListV, tuple)) for l in leaves(i))][0]
            ph = items[k]
            mk = lambda v: tuple(items[:k]) + (v,) + tuple(items[k + 1:])
            return itp.branch(st, ph.cond, lambda s: to_array(itp, s, mk(ph.a), copy, tag),
                              lambda s: to_array(itp, s, mk(ph.b), copy, tag))
        if any(d != d0 for d, _ in subs):
            itp.raise_(st, ExcV("ValueError", ("inhomogeneous shape",)))
        shape, symax = from_dims([len(items)] + d0)
        return alloc(itp, st, [c for _, cs in subs for c in cs], shape, symax, tag)
    if isinstance(x, Opaque):
        if x.note == "vec":
            return vec(itp, st, NF.of(app("val", x.term, kind="v")), tag)
        return zero_d(itp, st, NF.of(app("val", x.term)), tag)
    itp.unsupported(f"array from {x!r}")


# ------------------------------------------------------------------ indexing

def as_int(itp, st, i):
    i = itp.prune(st, i)
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, Fraction) and i.denominator == 1:
        return int(i)
    if isinstance(i, NF) and i.is_const():
        return int(i.const_val())
    if isinstance(i, Arr) and i.ndim == 0:
        return as_int(itp, st, cells(itp, st, i)[0])
    if isinstance(i, F):
        return Phi(i, 1, 0)
    if isinstance(i, EnumVal):
        return i.value
    return i


def slice_range(itp, st, s, n):
    g = lambda x: None if x is None else as_int(itp, st, x)
    lo, hi, step = g(s.lo), g(s.hi), g(s.step)
    for x in (lo, hi, step):
        if x is not None and not isinstance(x, int):
            return x  # symbolic
    return range(*slice(lo, hi, step).indices(n))


def index(itp, st, a, i):
    """resolve basic indexing of an Arr: returns Arr (view) or ('cell', pos) or other"""
    idx = list(i) if isinstance(i, tuple) else [i]
    d = dims(a)
    nreal = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in idx if not isinstance(x, (Arr, ListV, NF, Phi))]:
        p = [k for k, x in enumerate(idx) if x is Ellipsis][0]
        idx[p:p + 1] = [SliceV(None, None, None)] * (len(d) - nreal)
    while sum(1 for x in idx if x is not None) < len(d):
        idx.append(SliceV(None, None, None))
    if sum(1 for x in idx if x is not None) > len(d):
        itp.raise_(st, ExcV("IndexError", ("too many indices",)))
    # strides for concrete dims
    strides = []
    acc = 1
    for x in reversed(d):
        strides.append(acc if x != "n" else None)
        if x != "n":
            acc *= x
    strides = strides[::-1]
    sel = []      # per dim: ('int', k) | ('rng', list) | 'n' | newaxis
    k = 0
    comp = None
    for x in idx:
        if x is None:
            sel.append(("new",))
            continue
        dim, s = d[k], strides[k]
        k += 1
        if dim == "n":
            if isinstance(x, SliceV) and x.lo in (None, 0) and x.hi is None and x.step in (None, 1):
                sel.append(("n",))
            else:
                comp = x
                sel.append(("comp",))
            continue
        if isinstance(x, SliceV):
            r = slice_range(itp, st, x, dim)
            if not isinstance(r, range):
                if isinstance(r, Phi):
                    return ("split", r.cond)
                itp.unsupported(f"symbolic slice bound {r!r}")
            sel.append(("rng", [j * s for j in r]))
            continue
        if isinstance(x, (ListV, Arr, tuple)) and not (isinstance(x, Arr) and x.ndim == 0):
            return ("fancy", None)
        j = as_int(itp, st, x)
        if isinstance(j, Phi):
            return ("split", j.cond)
        if not isinstance(j, int):
            if isinstance(j, NF):
                return ("symidx", j)
            itp.unsupported(f"index {x!r}")
        if j < -dim or j >= dim:
            itp.eff(st, "indexerror", j, dim)
            itp.raise_(st, ExcV("IndexError", (f"index {j} is out of bounds for size {dim}",)))
        sel.append(("int", (j % dim) * s))
    base = 0
    nd, rngs = [], []
    for t in sel:
        if t[0] == "int":
            base += t[1]
        elif t[0] == "rng":
            nd.append(len(t[1]))
            rngs.append(t[1])
        elif t[0] == "n":
            nd.append("n")
        elif t[0] == "new":
            nd.append(1)
            rngs.append([0])
    pos = [base + sum(c) for c in product(*rngs)]
    view_idx = tuple(a.idx[p] for p in pos)
    if comp is not None:
        return ("comp", view_idx, tuple(nd), comp)
    shape, symax = from_dims(nd)
    v = Arr(a.sid, view_idx, shape, symax)
    if not nd:
        return ("cell", v)
    return v


def component(itp, st, cell, i):
    """component i of a state vector"""
    i = as_int(itp, st, i)
    if isinstance(i, SliceV):
        it = tuple(None if x is None else itp.np.term(itp, st, x) for x in (i.lo, i.hi, i.step))
        return lift(lambda c: NF.of(app("vslice", NF.of(c), it, kind="v")), cell)
    it = itp.np.term(itp, st, i)

    def f(c):
        c = NF.of(c)
        if not c.is_vec():
            return c
        return NF.of(app("comp", c, it))
    return lift(f, cell)


def getitem(itp, st, a, i):
    r = index(itp, st, a, i)
    if isinstance(r, Arr):
        return r
    tag = r[0]
    if tag == "cell":
        return cells(itp, st, r[1])[0]
    if tag == "split":
        return itp.branch(st, r[1], lambda s: getitem(itp, s, a, i), lambda s: getitem(itp, s, a, i))
    if tag == "comp":
        cs = [st.heap[a.sid][p] for p in r[1]]
        out = [component(itp, st, c, r[3]) for c in cs]
        if not r[2]:
            if isinstance(r[3], SliceV):
                return vec(itp, st, out[0])
            return out[0]
        return alloc(itp, st, out, r[2], None)
    if tag == "fancy":
        return fancy_get(itp, st, a, i)
    if tag == "symidx":
        return symidx_get(itp, st, a, i, r[1])
    itp.unsupported("index")


def symidx_get(itp, st, a, i, j):
    """symbolic integer index into the first axis: gate over the positions"""
    if isinstance(i, tuple) or not a.shape:
        itp.unsupported("symbolic index")
    n = a.shape[0]
    out = None
    for p in range(n - 1, -1, -1):
        v = getitem(itp, st, a, p)
        out = v if out is None else mk_phi(S.compare("Eq", j, p), v, out)
    return out


def mask_positions(itp, st, m):
    """positions selected by a boolean array, splitting on undecided cells:
    returns list or ('split', formula)"""
    out = []
    for k, c in enumerate(cells(itp, st, m)):
        d = itp.decide(st, itp.truth(st, c))
        if d is None:
            return ("split", itp.truth(st, c))
        if d:
            out.append(k)
    return out


def is_mask(itp, st, m):
    cs = cells(itp, st, m)
    return bool(cs) and all(is_truthlike(x) for c in cs for x in leaves(c))


def fancy_positions(itp, st, a, i):
    rest = ()
    if isinstance(i, tuple):
        if any(isinstance(x, (Arr, ListV)) for x in i[1:]) or not isinstance(i[0], (Arr, ListV)):
            itp.unsupported("fancy index on a later axis")
        rest = i[1:]
        i = i[0]
    if isinstance(i, (ListV, tuple)):
        i = to_array(itp, st, i)
    if i.ndim != 1:
        itp.unsupported("fancy index rank")
    if not a.shape or a.symax == 0:
        itp.unsupported("fancy index into the state axis")
    if is_mask(itp, st, i):
        p = mask_positions(itp, st, i)
        if isinstance(p, tuple):
            return p, rest
        if i.shape[0] != a.shape[0]:
            itp.raise_(st, ExcV("IndexError", ("boolean index did not match",)))
    else:
        p = []
        for c in cells(itp, st, i):
            j = as_int(itp, st, c)
            if isinstance(j, Phi):
                return ("split", j.cond), rest
            if not isinstance(j, int):
                itp.unsupported("symbolic fancy index")
            if j < -a.shape[0] or j >= a.shape[0]:
                itp.eff(st, "indexerror", j, a.shape[0])
                itp.raise_(st, ExcV("IndexError", (f"index {j} is out of bounds for size {a.shape[0]}",)))
            p.append(j % a.shape[0])
    return p, rest


def take_view(a, p):
    inner = 1
    for x in a.shape[1:]:
        inner *= x
    idx = tuple(a.idx[k * inner + q] for k in p for q in range(inner))
    return Arr(a.sid, idx, (len(p),) + a.shape[1:], a.symax)


def fancy_get(itp, st, a, i):
    p, rest = fancy_positions(itp, st, a, i)
    if isinstance(p, tuple):
        return itp.branch(st, p[1], lambda s: getitem(itp, s, a, i), lambda s: getitem(itp, s, a, i))
    v = copy_arr(itp, st, take_view(a, p))
    if rest:
        return getitem(itp, st, v, (SliceV(None, None, None),) + tuple(rest))
    return v


def assign_into(itp, st, view, v):
    od = dims(view)
    v = itp.prune(st, v)
    if isinstance(v, Phi) and any(isinstance(l, (Arr, ListV, tuple)) for l in leaves(v)):
        itp.branch(st, v.cond, lambda s: assign_into(itp, s, view, v.a), lambda s: assign_into(itp, s, view, v.b))
        return
    if isinstance(v, SArr):
        itp.unsupported("store of symbolic-length array")
    d, cs = logical(itp, st, v)
    while len(d) > len(od) and d and d[0] == 1:
        d = d[1:]
    try:
        if bdims(d, od) != od:
            raise ShapeError
        vals = expand(d, cs, od)
    except ShapeError:
        itp.eff(st, "shape", str((d, od)))
        itp.raise_(st, ExcV("ValueError", ("could not broadcast",)))
    write(itp, st, view, vals)


def setitem(itp, st, a, i, v):
    r = index(itp, st, a, i)
    if isinstance(r, Arr):
        return assign_into(itp, st, r, v)
    tag = r[0]
    if tag == "cell":
        x = itp.prune(st, v)
        if isinstance(x, (Arr, ListV, tuple)):
            if isinstance(x, Arr) and x.is_vec:
                # numpy accepts a size-1 vector only
                x = component(itp, st, cells(itp, st, x)[0], 0)
            else:
                d, cs = logical(itp, st, x)
                if len(cs) != 1:
                    itp.raise_(st, ExcV("ValueError", ("setting an array element with a sequence",)))
                x = cs[0]
        elif isinstance(x, Phi):
            x = lift(lambda y: cells(itp, st, y)[0] if isinstance(y, Arr) else y, x)
        elif isinstance(x, Opaque):
            x = NF.of(app("val", x.term))
        write(itp, st, r[1], (x,))
        return
    if tag == "split":
        itp.branch(st, r[1], lambda s: setitem(itp, s, a, i, v), lambda s: setitem(itp, s, a, i, v))
        return
    if tag == "fancy":
        p, rest = fancy_positions(itp, st, a, i)
        if isinstance(p, tuple):
            itp.branch(st, p[1], lambda s: setitem(itp, s, a, i, v), lambda s: setitem(itp, s, a, i, v))
            return
        view = take_view(a, p)
        if rest:
            view = index(itp, st, view, (SliceV(None, None, None),) + tuple(rest))
        return assign_into(itp, st, view, v)
    if tag == "comp" and not r[2]:
        old = st.heap[a.sid][r[1][0]]
        it = itp.np.term(itp, st, r[3])
        new = NF.of(app("vset", NF.of(old), it, itp.np.term(itp, st, v), kind="v"))
        write(itp, st, Arr(a.sid, r[1], (), 0), (new,))
        return
    itp.unsupported(f"store through index {i!r}")


def transpose(a):
    d = dims(a)
    nd = d[::-1]
    c = [x for x in d if x != "n"]
    cr = c[::-1]
    strides = []
    acc = 1
    for x in reversed(c):
        strides.append(acc)
        acc *= x
    strides = strides[::-1][::-1]  # strides of the reversed dims
    pos = [sum(i * s for i, s in zip(ix, strides)) for ix in product(*[range(x) for x in cr])]
    shape, symax = from_dims(nd)
    return Arr(a.sid, tuple(a.idx[p] for p in pos), shape, symax)


def contract(itp, st, a, b):
    """numpy matmul/dot for 1-d/2-d operands"""
    for x, left in ((a, True), (b, False)):
        x2 = itp.prune(st, x)
        if isinstance(x2, Phi) and any(isinstance(l, Arr) for l in leaves(x2)):
            o = b if left else a
            return itp.branch(
                st, x2.cond,
                lambda s: contract(itp, s, *((x2.a, o) if left else (o, x2.a))),
                lambda s: contract(itp, s, *((x2.b, o) if left else (o, x2.b))))
    da, ca = logical(itp, st, a)
    db, cb = logical(itp, st, b)
    if not da or not db:
        return elementwise(itp, st, lambda x, y: S.arith("Mult", x, y), a, b)
    ka = da[-1]
    kb = db[-2] if len(db) > 1 else db[0]
    if ka != kb:
        itp.eff(st, "shape", f"contraction {da} @ {db}")
        itp.raise_(st, ExcV("ValueError", ("matmul: dimension mismatch",)))
    if len(da) > 2 or len(db) > 2:
        itp.unsupported("contraction rank")
    mul = lambda x, y: S_lift(itp, st, lambda p, q: S.arith("Mult", p, q), x, y)
    add = lambda x, y: S_lift(itp, st, lambda p, q: S.arith("Add", p, q), x, y)
    if ka == "n":
        rows = ca if len(da) == 2 else [ca[0]]
        cols = cb if len(db) == 2 else [cb[0]]
        out = [lift(lambda x: S.arith("Mult", N, S.mean(x)), mul(r, c)) for r in rows for c in cols]
        shape = ([da[0]] if len(da) == 2 else []) + ([db[1]] if len(db) == 2 else [])
        if not shape:
            return out[0]
        return alloc(itp, st, out, tuple(shape), None)
    k = ka
    # rows of a: list over the concrete outer dim (or the symbolic one, as a single cell row)
    if len(da) == 2:
        outer_a = da[0]
        rows = [ca[i * k:(i + 1) * k] for i in range(1 if outer_a == "n" else outer_a)]
    else:
        outer_a = None
        rows = [ca]
    if len(db) == 2:
        outer_b = db[1]
        m = 1 if outer_b == "n" else outer_b
        cols = [[cb[i * m + j] for i in range(k)] for j in range(m)]
    else:
        outer_b = None
        cols = [cb]
    out = []
    for r in rows:
        for c in cols:
            acc = 0
            for x, y in zip(r, c):
                acc = add(acc, mul(x, y))
            out.append(acc)
    nd = ([outer_a] if outer_a is not None else []) + ([outer_b] if outer_b is not None else [])
    if not nd:
        return out[0]
    if nd.count("n") > 1:
        itp.unsupported("outer product of state vectors")
    shape, symax = from_dims(nd)
    return alloc(itp, st, out, shape, symax)
