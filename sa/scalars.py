"""Scalar (and state-vector) operations of the value graph."""
from __future__ import annotations

from fractions import Fraction

from .nf import (NEG, NF, POS, ZERO, F, abs_nf, and_, app, boolean, cmp_, not_, or_)
from .values import (Opaque, Phi, is_truthlike, leaves, lift, mk_phi)

INF = float("inf")
NAN = float("nan")
SIGNS = {"Lt": {NEG}, "LtE": {NEG, ZERO}, "Gt": {POS}, "GtE": {POS, ZERO},
         "Eq": {ZERO}, "NotEq": {NEG, POS}}


class NotNumber(Exception):
    pass


def is_scalar(x):
    """numeric leaf (bool-like included)"""
    if isinstance(x, Phi):
        return is_scalar(x.a) and is_scalar(x.b)
    return isinstance(x, (bool, F, int, Fraction, float, NF))


def norm(x):
    if isinstance(x, NF) and x.is_const():
        c = x.const_val()
        return c
    return x


def num_norm(x):
    return norm(x)


def tonum(x):
    """F -> gate of 0/1"""
    if isinstance(x, F):
        return Phi(x, 1, 0)
    if isinstance(x, bool):
        return int(x)
    return x


def is_nan(x):
    return isinstance(x, float) and x != x


def sign_const(x):
    if isinstance(x, float):
        return 1 if x > 0 else -1
    h = NF.of(x)
    if h.is_const():
        c = h.const_val()
        return (c > 0) - (c < 0)
    s = h.sign_hint()
    return {"pos": 1, "neg": -1}.get(s)


def arith(op, a, b):
    """a op b on ungated scalars"""
    if isinstance(a, (F, bool)) and isinstance(b, (F, bool)) and op in ("BitAnd", "BitOr", "BitXor"):
        if op == "BitAnd":
            return and_(a, b)
        if op == "BitOr":
            return or_(a, b)
        return or_(and_(a, not_(b)), and_(not_(a), b))
    if isinstance(a, F) or isinstance(b, F) or isinstance(a, bool) or isinstance(b, bool):
        return lift(lambda x, y: arith(op, x, y), tonum(a), tonum(b))
    if isinstance(a, float) or isinstance(b, float):
        return arith_inf(op, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "FloorDiv" and b:
            return a // b
        if op == "Mod" and b:
            return a % b
        if op == "Pow" and b >= 0:
            return a ** b
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
    if not isinstance(a, (int, Fraction, NF)) or not isinstance(b, (int, Fraction, NF)):
        raise NotNumber
    x, y = NF.of(a), NF.of(b)
    if op == "Add":
        return norm(x + y)
    if op == "Sub":
        return norm(x - y)
    if op == "Mult":
        return norm(x * y)
    if op == "Div":
        if not y.t:
            raise ZeroDivisionError
        return norm(x * y.pow(-1))
    if op == "Pow":
        if y.is_const():
            e = y.const_val()
            if not x.t and e < 0:
                raise ZeroDivisionError
            return norm(x.pow(e))
        return NF.of(app("pow", x, y, kind="v" if x.is_vec() or y.is_vec() else "s",
                         sign=x.sign_hint() if x.sign_hint() in ("pos",) else None))
    if op == "FloorDiv":
        if x.is_const() and y.is_const():
            return Fraction(x.const_val() // y.const_val())
        return NF.of(app("floordiv", x, y))
    if op == "Mod":
        if x.is_const() and y.is_const():
            return Fraction(x.const_val() % y.const_val())
        return NF.of(app("mod", x, y))
    raise NotNumber


def arith_inf(op, a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    fa, fb = isinstance(a, float), isinstance(b, float)
    if op in ("Add", "Sub"):
        if fa and fb:
            return a + b if op == "Add" else a - b
        if fa:
            return a
        return b if op == "Add" else -b
    if op == "Mult":
        sa, sb = sign_const(a), sign_const(b)
        if sa is None or sb is None:
            return NF.of(app("infmul", str(a), str(b)))
        if sa == 0 or sb == 0:
            return NAN
        return INF * sa * sb
    if op == "Div":
        if fa and fb:
            return NAN
        if fb:
            return Fraction(0)
        s = sign_const(b)
        if s in (None, 0):
            return NF.of(app("infdiv", str(a), NF.of(b)))
        return a * s
    if op == "Pow":
        if fa and not fb:
            s = sign_const(b)
            if s is not None:
                return a if s > 0 else (Fraction(0) if s < 0 else Fraction(1))
    raise NotNumber


def negate(a):
    if isinstance(a, (bool, F)):
        a = tonum(a)
        return lift(negate, a)
    if isinstance(a, (int, Fraction, float)):
        return -a
    if isinstance(a, NF):
        return -a
    raise NotNumber


def compare(op, a, b):
    """formula for a op b on ungated scalars"""
    if isinstance(a, F) or isinstance(b, F):
        if is_truthlike(a) and is_truthlike(b):
            eq = or_(and_(a, b), and_(not_(a), not_(b)))
            if op == "Eq":
                return eq
            if op == "NotEq":
                return not_(eq)
        r = lift(lambda x, y: compare(op, x, y), tonum(a), tonum(b))
        return phi_bool(r)
    if is_nan(a) or is_nan(b):
        return op == "NotEq"
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            d = (a > b) - (a < b)
        elif isinstance(a, float):
            d = 1 if a > 0 else -1
        else:
            d = -1 if b > 0 else 1
        return d in SIGNS[op]
    d = NF.of(a) - NF.of(b)
    if d.is_vec():
        c = cmp_(d, SIGNS[op])
        if isinstance(c, bool):
            return c
        return boolean(("vcmp", c.args[0], c.args[1]))
    return cmp_(d, SIGNS[op])


def phi_bool(r):
    if isinstance(r, Phi):
        return or_(and_(r.cond, phi_bool(r.a)), and_(not_(r.cond), phi_bool(r.b)))
    return r


def fabs(a):
    if isinstance(a, (bool, F)):
        return tonum(a)
    if isinstance(a, (int, Fraction, float)):
        return abs(a)
    return norm(abs_nf(a))


def sqrt(a):
    if isinstance(a, float):
        return a
    return norm(NF.of(a).pow(Fraction(1, 2)))


def sgn(a):
    a = tonum(a)
    if isinstance(a, float):
        return a if a != a else Fraction(1 if a > 0 else -1)
    if isinstance(a, (int, Fraction)):
        return Fraction((a > 0) - (a < 0))
    if isinstance(a, NF):
        if a.is_vec():
            return NF.of(app("sign", a, kind="v"))
        return mk_phi(cmp_(a, {POS}), Fraction(1), mk_phi(cmp_(a, {NEG}), Fraction(-1), Fraction(0)))
    raise NotNumber


def maximum(a, b, big=True):
    """binary max (big) / min"""
    a, b = tonum(a), tonum(b)
    if isinstance(a, Phi) or isinstance(b, Phi):
        return lift(lambda x, y: maximum(x, y, big), a, b)
    if is_nan(a) or is_nan(b):
        return NAN
    if isinstance(a, float) or isinstance(b, float) or not (
            (isinstance(a, NF) and a.is_vec()) or (isinstance(b, NF) and b.is_vec())):
        c = compare("GtE" if big else "LtE", a, b)
        return mk_phi(c, a, b)
    x, y = NF.of(a), NF.of(b)
    if x == y:
        return a
    hs = {x.sign_hint(), y.sign_hint()}
    sg = None
    if big:
        if "pos" in hs:
            sg = "pos"
        elif "nonneg" in hs:
            sg = "nonneg"
    elif hs <= {"pos"}:
        sg = "pos"
    elif hs <= {"pos", "nonneg"}:
        sg = "nonneg"
    return NF.of(app("max" if big else "min", frozenset((x, y)), kind="v", sign=sg))


def select(c, x, y):
    """elementwise 'x where c else y'; the larger/smaller of two vectors is written as max/min"""
    if isinstance(c, F) and any(isinstance(v, NF) and v.is_vec() for v in (x, y)) \
            and all(isinstance(v, (NF, int, Fraction)) for v in (x, y)):
        for op, big in (("Gt", True), ("GtE", True), ("Lt", False), ("LtE", False)):
            if compare(op, x, y) == c:
                return maximum(x, y, big)
    return mk_phi(c, x, y)


# --------------------------------------------------------- vector reductions


def _split(m):
    from .nf import Atom
    s = tuple((u, e) for u, e in m if Atom._list[u].kind != "v")
    v = tuple((u, e) for u, e in m if Atom._list[u].kind == "v")
    return s, v


def perfect_square(p):
    """is the polynomial the square of a polynomial (up to positive factors)?"""
    from .nf import Atom, _mono_mul
    h = p.sign_hint()
    if h in ("pos", "nonneg"):
        return True
    if len(p.t) > 400:
        return False
    coef, mono, prim = p.primitive()
    for u, e in mono:
        a = Atom._list[u]
        if a.sign not in ("pos", "nonneg") and not (isinstance(e, int) and e % 2 == 0):
            return False
    if any(not isinstance(e, int) or e < 0 for m in prim.t for _, e in m):
        return False
    if coef < 0:
        return False

    us = sorted({u for m in prim.t for u, _ in m})
    key = lambda m: tuple(dict(m).get(u, 0) for u in us)
    rest = prim
    root = NF({})
    for _ in range(40):
        if not rest.t:
            return True
        lm = max(rest.t, key=key)
        c = rest.t[lm]
        if not root.t:
            if any(e % 2 for _, e in lm) or c < 0:
                return False
            # scale so that the leading coefficient is a square
            rest = prim.scale(1 / c)
            t = NF({tuple((u, e // 2) for u, e in lm): Fraction(1)})
            lead = t
            (leadm,) = t.t
        else:
            inv = tuple((u, -e) for u, e in leadm)
            q = _mono_mul(lm, inv)
            if any(e < 0 for _, e in q):
                return False
            t = NF({q: c / 2})
        rest = rest - (root * t).scale(2) - t * t
        root = root + t
    return False


def mean(x):
    x = NF.of(x)
    if not x.is_vec():
        return norm(x)
    coef, mono, prim = x.primitive()
    sm, vm = _split(mono)
    inner = prim * NF({vm: Fraction(1)})
    sq = perfect_square(inner)
    at = app("mean", inner, sign="nonneg" if sq else None)
    r = NF.of(at).scale(coef) * NF({sm: Fraction(1)})
    if not sq:
        # linear: split additively so that equal means of sums are identified
        out = NF({})
        for m, c in x.t.items():
            s, v = _split(m)
            if v:
                out = out + NF({s: c}) * NF.of(app("mean", NF({v: Fraction(1)}),
                                                   sign="nonneg" if perfect_square(NF({v: Fraction(1)})) else None))
            else:
                out = out + NF({s: c})
        return norm(out)
    return norm(r)
