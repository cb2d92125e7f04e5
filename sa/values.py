"""Abstract values of the lowering: references into the abstract heap, gated
values and uninterpreted (external) objects."""
from __future__ import annotations

from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any

from .nf import NF, F, and_, boolean, conj, implies_syn, not_, or_, show


class Unsupported(Exception):
    """The analyser does not understand a construct (analysis error, never a verdict)."""


class Dead(Exception):
    """No path of the evaluated expression continues."""


class _Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = _Undef()


@dataclass(frozen=True)
class Phi:
    cond: Any
    a: Any
    b: Any

    def __repr__(self):
        return f"({self.cond} ? {self.a} : {self.b})"


@dataclass(frozen=True)
class Ext:
    """object of an external library, named by its path"""
    path: str


@dataclass(frozen=True, eq=False)
class Opaque:
    """uninterpreted object; `term` identifies it, `attrs` lists known attributes.
    `call(interp, st, self, args, kwargs)` gives its call semantics."""
    term: Any
    attrs: Any = None
    call: Any = None
    note: str = ""

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.term == self.term

    def __hash__(self):
        return hash(("opaque", self.term))

    def __repr__(self):
        return f"<{show(self.term)}>"


@dataclass(frozen=True, eq=False)
class Func:
    node: Any
    frame: Any
    module: str
    name: str
    defaults: tuple
    kwdefaults: tuple
    owner: Any = None  # list cell with the class for zero-argument super()

    @property
    def qual(self):
        return f"{self.module}:{self.name}"

    def __repr__(self):
        return f"<function {self.qual}>"


@dataclass(frozen=True)
class Bound:
    func: Any
    obj: Any


@dataclass(frozen=True)
class Prop:
    fget: Any
    fset: Any = None


@dataclass(frozen=True)
class StaticM:
    func: Any


@dataclass(frozen=True)
class ClassM:
    func: Any


@dataclass(frozen=True)
class Partial:
    func: Any
    args: tuple
    kwargs: tuple


class Cls:
    def __init__(self, cid, name, module, bases):
        self.cid, self.name, self.module, self.bases = cid, name, module, bases
        self.mro = ()
        self.jit = False

    def __repr__(self):
        return f"<class {self.name}>"


@dataclass(frozen=True)
class Obj:
    oid: int
    cls: Any

    def __repr__(self):
        return f"<{self.cls.name}#{self.oid}>"


@dataclass(frozen=True)
class Mod:
    name: str
    eid: int


@dataclass(frozen=True)
class ListV:
    lid: int
    kind: str = "list"


@dataclass(frozen=True)
class DictV:
    did: int


@dataclass(frozen=True)
class SuperV:
    cls: Any
    obj: Any


@dataclass(frozen=True)
class EnumVal:
    cls: Any
    name: str
    value: Any

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


@dataclass(frozen=True)
class ExcV:
    """exception instance: class (Cls or builtin name) and message args"""
    cls: Any
    args: tuple = ()

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


@dataclass(frozen=True)
class ExcCls:
    name: str


@dataclass(frozen=True)
class Model:
    name: str
    fn: Any = field(compare=False)


@dataclass(frozen=True)
class Arr:
    """numpy array with concrete dimensions `shape` and at most one symbolic
    axis of the (unknown) system dimension n, at position symax of the full
    dimension list.  `idx` are positions in the storage `sid`: a view shares
    the storage, so reads through it see later writes."""
    sid: int
    idx: tuple
    shape: tuple
    symax: Any = None

    @property
    def ndim(self):
        return len(self.shape) + (self.symax is not None)

    @property
    def is_vec(self):
        return self.symax is not None and self.shape == ()

    def __repr__(self):
        return f"<arr s{self.sid} {self.shape}{'+n@%d' % self.symax if self.symax is not None else ''}>"


@dataclass(frozen=True)
class SArr:
    """mutable array (or slice of one) whose first dimension has unknown length.
    rows are scalars ('s') or state vectors ('v').
    lo/hi: NF bounds of the view relative to the storage."""
    sid: int
    length: Any
    row: str
    lo: Any = None
    hi: Any = None
    gather: Any = None

    def __repr__(self):
        return f"<sarr s{self.sid} len={self.length} row={self.row} [{self.lo}:{self.hi}]>"


@dataclass(frozen=True)
class SContent:
    """heap content of SArr / symbolic list: base term and recorded stores"""
    base: Any
    stores: tuple = ()  # (kind, index NF | None, value, guard, loops)


@dataclass(frozen=True)
class RangeV:
    start: Any
    stop: Any
    step: Any


@dataclass(frozen=True)
class IterV:
    """enumerate/zip/reversed over possibly symbolic iterables"""
    kind: str
    parts: tuple
    start: Any = 0


@dataclass(frozen=True)
class SliceV:
    lo: Any
    hi: Any
    step: Any


@dataclass(frozen=True)
class PhiContent:
    cond: Any
    a: Any
    b: Any


def is_truthlike(x):
    return isinstance(x, (bool, F))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (NF, Fraction, int, float)) and isinstance(b, (NF, Fraction, int, float)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        try:
            if isinstance(a, float) or isinstance(b, float):
                return a == b and type(a) is type(b)
            return NF.of(a) == NF.of(b)
        except TypeError:
            return False
    if type(a) is not type(b):
        return False
    try:
        return a == b
    except Exception:
        return False


def restrict(v, c):
    """value v where formula c holds (syntactic)"""
    while isinstance(v, Phi):
        if implies_syn(c, v.cond):
            v = v.a
        elif implies_syn(c, not_(v.cond)):
            v = v.b
        else:
            return v
    if isinstance(v, tuple) and any(isinstance(i, Phi) for i in v):
        return tuple(restrict(i, c) for i in v)
    return v


def mk_phi(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    a = restrict(a, c)
    b = restrict(b, not_(c))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if same(a, b):
        return a
    if is_truthlike(a) and is_truthlike(b):
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(mk_phi(c, x, y) for x, y in zip(a, b))
    if isinstance(b, Phi) and same(a, b.a):
        return mk_phi(or_(c, b.cond), a, b.b)
    if isinstance(b, Phi) and same(a, b.b):
        return mk_phi(or_(c, not_(b.cond)), a, b.a)
    if isinstance(a, Phi) and same(a.b, b):
        return mk_phi(and_(c, a.cond), a.a, b)
    if isinstance(a, Phi) and same(a.a, b):
        return mk_phi(and_(c, not_(a.cond)), a.b, b)
    if isinstance(c, F) and c.op == "nbool":
        return Phi(not_(c), b, a)
    return Phi(c, a, b)


def lift(fn, *args):
    """apply fn pointwise below the gates of its arguments"""
    for a in args:
        if isinstance(a, Phi):
            c = a.cond
            nc = not_(c)
            return mk_phi(c, lift(fn, *[restrict(x, c) for x in args]),
                          lift(fn, *[restrict(x, nc) for x in args]))
    return fn(*args)


def leaves(v):
    if isinstance(v, Phi):
        yield from leaves(v.a)
        yield from leaves(v.b)
    else:
        yield v


def gated_leaves(v, g=True):
    """(guard, leaf) pairs"""
    if isinstance(v, Phi):
        yield from gated_leaves(v.a, and_(g, v.cond))
        yield from gated_leaves(v.b, and_(g, not_(v.cond)))
    else:
        yield g, v
