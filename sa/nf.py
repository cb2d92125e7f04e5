"""Algebraic normal forms, gating formulas and a convex-polyhedra entailment.

This is the abstract domain of the analyser.  A numeric value is a polynomial
with exact rational coefficients over *atoms* (symbols and uninterpreted
applications, e.g. ``rhs(t, y)``), the value-numbering domain used to decide
that two program expressions always agree.  A gate (branch condition) is a
formula over the signs of such normal forms, so it only ever distinguishes the
finitely many orderings of the compared expressions; entailment between gates
is decided with Fourier-Motzkin projection on the linear part (the convex
polyhedra domain), never with an external solver.
"""
from __future__ import annotations

from decimal import MAX_EMAX, MIN_EMIN, Decimal, localcontext
from fractions import Fraction
from itertools import product

# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------


class Atom:
    __slots__ = ("uid", "key", "kind", "sign")
    _table: dict = {}
    _list: list = []

    def __repr__(self):
        return show_atom(self)


def _intern(key, kind, sign):
    a = Atom._table.get(key)
    if a is None:
        a = Atom()
        a.uid = len(Atom._list)
        a.key = key
        a.kind = kind
        a.sign = sign
        Atom._table[key] = a
        Atom._list.append(a)
    return a


def sym(name, kind="s", sign=None) -> Atom:
    """Symbol. kind: 's' scalar, 'v' vector. sign: None | 'pos' | 'nonneg'."""
    return _intern(("sym", name, kind, sign), kind, sign)


def app(fn, *args, kind="s", sign=None) -> Atom:
    return _intern(("app", fn) + tuple(args), kind, sign)


def abs_nf(x):
    """|x| with sign knowledge and x ~ -x identified"""
    h = x.sign_hint()
    if h in ("pos", "nonneg"):
        return x
    if h in ("neg", "nonpos"):
        return -x
    if x.is_const():
        return NF.const(abs(x.const_val()))
    coef, mono, prim = x.primitive()
    r = NF.const(abs(coef))
    for u, e in mono:
        a = Atom._list[u]
        base = NF({((u, 1),): Fraction(1)})
        if a.sign in ("pos", "nonneg") or (isinstance(e, int) and e % 2 == 0) or not isinstance(e, int):
            r = r * base.pow(e)
        else:
            r = r * NF.of(app("abs", base, kind=a.kind, sign="nonneg")).pow(e)
    if not prim.is_const():
        r = r * NF.of(abs_atom(prim))
    return r


def abs_atom(x):
    return app("abs", x, kind="v" if x.is_vec() else "s", sign="nonneg")


def show_atom(a, depth=3):
    k = a.key
    if k[0] == "sym":
        return k[1]
    if depth <= 0:
        return f"{k[1]}(…)"
    return f"{k[1]}({', '.join(show(x, depth - 1) for x in k[2:])})"


def show(x, depth=3):
    if isinstance(x, NF):
        return x.show(depth)
    if isinstance(x, Atom):
        return show_atom(x, depth)
    if isinstance(x, tuple):
        return "(" + ", ".join(show(i, depth) for i in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ", ".join(sorted(show(i, depth) for i in x)) + "}"
    return str(x)


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------


class NF:
    """Polynomial: {monomial: Fraction}; monomial = ((uid, exp), ...) sorted."""

    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return NF({(): c}) if c else NF({})

    @staticmethod
    def of(x):
        if isinstance(x, NF):
            return x
        if isinstance(x, Atom):
            return NF({((x.uid, 1),): Fraction(1)})
        if isinstance(x, bool):
            return NF.const(int(x))
        if isinstance(x, (int, Fraction)):
            return NF.const(x)
        raise TypeError(f"not numeric: {x!r}")

    # -- identity
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, NF) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {Atom._list[u] for m in self.t for u, _ in m}

    def is_vec(self):
        return any(Atom._list[u].kind == "v" for m in self.t for u, _ in m)

    # -- arithmetic
    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return NF(t)

    def __neg__(self):
        return NF({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return NF({})
        return NF({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_val())
        if o.is_const():
            return self.scale(o.const_val())
        t = {}
        again = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                if not again:
                    for u, e in m:
                        if isinstance(e, int) and e > 0 and Atom._list[u].key[0] == "poly":
                            again = True
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        r = NF(t)
        return _expand_poly(r) if again else r

    def pow(self, e):
        e = Fraction(e)
        if e == 0:
            return NF.const(1)
        if e == 1:
            return self
        if e.denominator == 1 and e > 0 and not (len(self.t) == 1):
            r = NF.const(1)
            b = self
            n = int(e)
            while n:
                if n & 1:
                    r = r * b
                b = b * b
                n >>= 1
            return r
        if not self.t:
            if e > 0:
                return NF.const(0)
            raise ZeroDivisionError
        if len(self.t) == 1:
            (m, c), = self.t.items()
            cc = _power_of(c, e)
            mm = {}
            if cc is not None:
                for u, x in m:
                    ne = Fraction(x) * e
                    at = Atom._list[u]
                    if e.denominator != 1 and at.sign is None and isinstance(x, int) and x % 2 == 0:
                        u = abs_atom(NF.of(at)).uid
                    mm[u] = _ie(mm.get(u, 0) + ne)
                return _expand_poly(NF({tuple(sorted((u, x) for u, x in mm.items() if x)): cc}))
        # general polynomial: factor content, keep the primitive part as atom
        coef, mono, prim = self.primitive()
        root = _power_of(coef, e)
        if root is None:
            r = NF.of(app("cpow", coef, e, sign=None))
        else:
            r = NF.const(root)
        if mono:
            r = r * NF({mono: Fraction(1)}).pow(e)
        if not prim.is_const():
            kind = "v" if prim.is_vec() else "s"
            pa = _intern(("poly", prim), kind, prim.sign_hint())
            r = r * NF({((pa.uid, _ie(e)),): Fraction(1)})
        return r

    def primitive(self):
        """self == coef * mono * prim with prim monic in its leading monomial
        and without a common monomial factor."""
        monos = list(self.t)
        common = dict(monos[0])
        for m in monos[1:]:
            d = dict(m)
            for u in set(common) | set(d):
                e = min(d.get(u, 0), common.get(u, 0))
                if e:
                    common[u] = e
                else:
                    common.pop(u, None)
        cm = tuple(sorted(common.items()))
        inv = tuple((u, -e) for u, e in cm)
        t = {_mono_mul(m, inv): c for m, c in self.t.items()}
        coef = t[_lead(t)]
        prim = NF({m: c / coef for m, c in t.items()})
        if cm:
            ex = _expand_poly(prim)
            if ex is not prim and ex.t:
                # dividing by a common factor left a sum to its first power: open it and start again
                c2, m2, p2 = ex.primitive()
                return coef * c2, _mono_mul(cm, m2), p2
        return coef, cm, prim

    def sign_hint(self):
        """'pos'/'nonneg' when all monomials are visibly so, 'neg'/'nonpos' dually."""
        if not self.t:
            return None
        pos = []
        for m, c in self.t.items():
            s = mono_sign(m)
            if s is None:
                return None
            pos.append((s, c > 0))
        if all(p for _, p in pos):
            return "pos" if any(s == "pos" for s, _ in pos) else "nonneg"
        if all(not p for _, p in pos):
            return "neg" if any(s == "pos" for s, _ in pos) else "nonpos"
        return None

    def subst(self, mapping):
        """Replace atoms (mapping Atom -> NF), also inside applications."""
        return subst(self, mapping)

    def show(self, depth=3):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: (len(mc[0]), mc[0])):
            fs = []
            for u, e in m:
                a = show_atom(Atom._list[u], depth) if Atom._list[u].key[0] != "poly" \
                    else "(" + (Atom._list[u].key[1].show(depth - 1) if depth > 0 else "…") + ")"
                fs.append(a if e == 1 else f"{a}^{e}")
            cs = str(c) if c.denominator < 10**6 else repr(float(c))
            if fs and c == 1:
                cs = ""
            out.append("*".join(([cs] if cs else []) + fs))
        s = " + ".join(out)
        return s if len(s) < 600 else s[:600] + "…"

    __repr__ = show


def _lead(t):
    """the greatest monomial in an order that multiplication by a monomial does not change"""
    if len(t) == 1:
        return next(iter(t))
    ms = list(t)
    best, bd = ms[0], dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        # the first unknown with different exponents decides
        u = min((u for u in d.keys() | bd.keys() if d.get(u, 0) != bd.get(u, 0)))
        if d.get(u, 0) > bd.get(u, 0):
            best, bd = m, d
    return best


def _ie(e):
    e = Fraction(e)
    return int(e) if e.denominator == 1 else e


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for u, e in m2:
        n = d.get(u, 0) + e
        if n:
            d[u] = _ie(n)
        else:
            d.pop(u, None)
    return tuple(sorted(d.items()))


def _expand_poly(r):
    """poly atoms raised to a positive integer are expanded back."""
    for m in r.t:
        for u, e in m:
            a = Atom._list[u]
            if a.key[0] == "poly" and isinstance(e, int) and e > 0:
                out = NF({})
                for m2, c2 in r.t.items():
                    term = NF.const(c2)
                    for u2, e2 in m2:
                        a2 = Atom._list[u2]
                        if a2.key[0] == "poly" and isinstance(e2, int) and e2 > 0:
                            base = a2.key[1]
                            for _ in range(e2):
                                term = term * base
                        else:
                            term = term * NF({((u2, e2),): Fraction(1)})
                    out = out + term
                return out
    return r


def _const_pow(c, e):
    if e.denominator == 1:
        return c ** int(e)
    if c == 1:
        return Fraction(1)
    if c < 0:
        return None
    n = _root(c.numerator, e.denominator)
    d = _root(c.denominator, e.denominator)
    if n is None or d is None:
        return None
    return Fraction(n, d) ** e.numerator


def _power_of(c, e):
    """c**e; irrational values to 40 digits (what is compared is rounded to 12, so that 0.9**-0.2,
    1/0.9**0.2 and (10/9)**0.2 are one value); None for the root of a negative number"""
    r = _const_pow(c, e)
    if r is not None or c <= 0:
        return r
    with localcontext() as ctx:
        ctx.prec = 40
        ctx.Emax, ctx.Emin = MAX_EMAX, MIN_EMIN
        return Fraction((Decimal(c.numerator) / c.denominator) ** (Decimal(e.numerator) / e.denominator))


def _root(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10**300 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x**k == n:
            return x
    return None


def mono_sign(m):
    """'pos' | 'nonneg' | None"""
    s = "pos"
    for u, e in m:
        a = Atom._list[u]
        if a.sign == "pos":
            continue
        if a.sign == "nonneg":
            if e > 0 and not (a.key[0] == "poly" and _nonzero_given(a.key[1], m)):
                s = "nonneg"
            continue
        if isinstance(e, int) and e % 2 == 0:
            s = "nonneg" if e > 0 else s
            continue
        if not isinstance(e, int):
            s = "nonneg" if e > 0 else s
            continue
        return None
    return s


def _nonzero_given(p, m):
    """a sum of nonneg terms is positive when one of its terms is made of factors the
    enclosing monomial divides by (the value exists only where they are not zero)"""
    nz = {u for u, e in m if e < 0}
    if not nz:
        return False
    for mono, c in p.t.items():
        if c > 0 and mono and all(Atom._list[u].sign == "pos" or (u in nz and Atom._list[u].sign == "nonneg")
                                  for u, _ in mono):
            return True
    return False


def subst(x, mp):
    if isinstance(x, NF):
        out = NF({})
        for m, c in x.t.items():
            term = NF.const(c)
            for u, e in m:
                a = Atom._list[u]
                base = subst_atom(a, mp)
                term = term * (base.pow(e) if e != 1 else base)
            out = out + term
        return out
    if isinstance(x, tuple):
        return tuple(subst(i, mp) for i in x)
    if isinstance(x, frozenset):
        return frozenset(subst(i, mp) for i in x)
    if isinstance(x, Atom):
        r = subst_atom(x, mp)
        return r
    if isinstance(x, F):
        return x.subst(mp)
    return x


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if a.key[0] == "sym":
        return NF.of(a)
    if a.key[0] == "poly":
        return subst(a.key[1], mp)
    new = tuple(subst(i, mp) for i in a.key[2:])
    if new == a.key[2:]:
        return NF.of(a)
    if a.key[1] == "abs" and isinstance(new[0], NF):
        return abs_nf(new[0])
    return NF.of(_intern(("app", a.key[1]) + new, a.kind, a.sign))


def all_atoms(x, acc=None):
    """All atoms reachable, including inside applications."""
    if acc is None:
        acc = set()
    if isinstance(x, NF):
        for m in x.t:
            for u, _ in m:
                all_atoms(Atom._list[u], acc)
    elif isinstance(x, Atom):
        if x not in acc:
            acc.add(x)
            for i in x.key[1:]:
                all_atoms(i, acc)
    elif isinstance(x, (tuple, frozenset)):
        for i in x:
            all_atoms(i, acc)
    elif isinstance(x, F):
        for l in x.leaves():
            all_atoms(l.args[0], acc)
    return acc


# --------------------------------------------------------------------------
# formulas (negation normal form)
# --------------------------------------------------------------------------

NEG, ZERO, POS = -1, 0, 1
ALL = frozenset((NEG, ZERO, POS))


class F:
    """Formula: op in {'cmp','bool','nbool','and','or'}"""

    __slots__ = ("op", "args", "_h", "_n")
    _table: dict = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        f = cls._table.get(key)
        if f is None:
            f = object.__new__(cls)
            f.op = op
            f.args = args
            f._h = hash(key)
            f._n = None
            cls._table[key] = f
        return f

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def leaves(self):
        if self.op in ("and", "or"):
            for a in self.args[0]:
                yield from a.leaves()
        else:
            yield self

    def subst(self, mp):
        if self.op == "cmp":
            return cmp_(subst(self.args[0], mp), self.args[1])
        if self.op in ("bool", "nbool"):
            b = boolean(subst(self.args[0], mp))
            return b if self.op == "bool" else not_(b)
        parts = [a.subst(mp) for a in self.args[0]]
        return and_(*parts) if self.op == "and" else or_(*parts)

    def __repr__(self):
        if self.op == "cmp":
            rel = {(-1,): "<", (0,): "==", (1,): ">", (-1, 0): "<=", (0, 1): ">=", (-1, 1): "!="}
            return f"[{self.args[0]} {rel[tuple(sorted(self.args[1]))]} 0]"
        if self.op == "bool":
            return f"{show(self.args[0])}"
        if self.op == "nbool":
            return f"!{show(self.args[0])}"
        sep = " & " if self.op == "and" else " | "
        return "(" + sep.join(sorted(map(repr, self.args[0]))) + ")"


def cmp_(nf, signs):
    """sign(nf) in signs"""
    signs = frozenset(signs)
    if not signs:
        return False
    if signs == ALL:
        return True
    nf = NF.of(nf)
    if nf.is_const():
        c = nf.const_val()
        return (0 if c == 0 else (1 if c > 0 else -1)) in signs
    # strip positive common factors, make leading coefficient positive
    coef, mono, prim = nf.primitive()
    rest = tuple((u, e) for u, e in mono if Atom._list[u].sign != "pos")
    core = prim * NF({rest: Fraction(1)}) if rest else prim
    core = _unroot(core)
    if len(core.t) == 1 and core.t.keys() != {()}:
        # sign of a product of powers: drop roots and exponents where they do not matter
        (m1, c1), = core.t.items()
        core = NF({tuple((u, 1 if e > 0 and Atom._list[u].sign == "nonneg" else e) for u, e in m1): c1})
    if coef < 0:
        signs = frozenset(-s for s in signs)
    h = core.sign_hint()
    if h == "pos":
        return POS in signs
    if h == "neg":
        return NEG in signs
    if h == "nonneg":
        signs = signs & {ZERO, POS} if signs & {ZERO, POS} != {ZERO, POS} else ALL
    elif h == "nonpos":
        signs = signs & {ZERO, NEG} if signs & {ZERO, NEG} != {ZERO, NEG} else ALL
    if not signs:
        return False
    if signs == ALL:
        return True
    if h == "nonneg" and len(core.t) == 1:
        # |x| is zero exactly where x is
        (m1, c1), = core.t.items()
        if len(m1) == 1 and m1[0][1] == 1 and c1 > 0:
            a = Atom._list[m1[0][0]]
            if a.key[0] == "app" and a.key[1] == "abs" and a.kind == "s":
                return cmp_(a.key[2], {ZERO} if signs == {ZERO} else {NEG, POS})
    return F("cmp", core, signs)


def _unroot(core):
    """a*m + b with m a product of nonnegative atoms: compare after raising both
    sides to a common power so that the exponents are coprime integers."""
    if len(core.t) != 2 or () not in core.t:
        return core
    (m, a), = [(m, c) for m, c in core.t.items() if m]
    b = core.t[()]
    if a * b > 0 or mono_sign(m) is None:
        return core
    if any(Atom._list[u].sign is None for u, _ in m):
        return core
    es = [Fraction(e) for _, e in m]
    if any(e < 0 for e in es):
        return core
    from math import gcd, lcm
    l = 1
    for e in es:
        l = lcm(l, e.denominator)
    ints = [int(e * l) for e in es]
    g = 0
    for i in ints:
        g = gcd(g, i)
    k = Fraction(l, g)
    if k == 1:
        return core
    ca, cb = _const_pow(abs(a), k), _const_pow(abs(b), k)
    if ca is None or cb is None:
        k = Fraction(l)
        if k == 1:
            return core
        ca, cb = _const_pow(abs(a), k), _const_pow(abs(b), k)
    mm = tuple((u, _ie(Fraction(e) * k)) for u, e in m)
    sg = 1 if a > 0 else -1
    return NF({mm: ca * sg, (): cb * (1 if b > 0 else -1)})


def boolean(term):
    if isinstance(term, (bool, F)):
        return term
    return F("bool", term)


def not_(f):
    if isinstance(f, bool):
        return not f
    if f._n is None:
        if f.op == "cmp":
            r = F("cmp", f.args[0], ALL - f.args[1])
            h = f.args[0].sign_hint()
            if h:
                r = cmp_(f.args[0], ALL - f.args[1])
        elif f.op == "bool":
            r = F("nbool", f.args[0])
        elif f.op == "nbool":
            r = F("bool", f.args[0])
        elif f.op == "and":
            r = or_(*[not_(a) for a in f.args[0]])
        else:
            r = and_(*[not_(a) for a in f.args[0]])
        f._n = r
        if isinstance(r, F) and r._n is None:
            r._n = f
    return f._n


def conj(f):
    if f is True:
        return frozenset()
    if isinstance(f, F) and f.op == "and":
        return f.args[0]
    return frozenset((f,))


def disj(f):
    if f is False:
        return frozenset()
    if isinstance(f, F) and f.op == "or":
        return f.args[0]
    return frozenset((f,))


def and_(*fs):
    parts = set()
    for f in fs:
        if f is False:
            return False
        parts |= conj(f)
    parts.discard(True)
    cm = {}
    for p in list(parts):
        if p.op == "cmp":
            k = p.args[0]
            if k in cm:
                parts.discard(p)
                parts.discard(cm[k])
                s = p.args[1] & cm[k].args[1]
                if not s:
                    return False
                q = F("cmp", k, s)
                cm[k] = q
                parts.add(q)
            else:
                cm[k] = p
    for p in list(parts):
        if not_(p) in parts:
            return False
    # a disjunction is implied by one of fewer alternatives
    ors = [p for p in parts if p.op == "or"]
    if len(ors) > 1:
        for p in ors:
            if any(q is not p and q in parts and q.args[0] < p.args[0] for q in ors):
                parts.discard(p)
    # unit resolution inside disjunctions
    changed = True
    while changed:
        changed = False
        against = [(q, conj(not_(q))) for q in parts if q.op == "or" and len(q.args[0]) <= 4]
        for p in list(parts):
            if p.op == "or":
                ds = p.args[0]
                keep = []
                sat = False
                for d in ds:
                    dc = conj(d)
                    if dc <= parts:
                        sat = True
                        break
                    if any(not_(x) in parts or _contra(x, cm) for x in dc):
                        continue
                    if any(q is not p and nq <= dc for q, nq in against):
                        continue
                    keep.append(d)
                if sat:
                    parts.discard(p)
                    changed = True
                    break
                if len(keep) != len(ds):
                    parts.discard(p)
                    if not keep:
                        return False
                    n = or_(*keep)
                    return and_(n, *parts)
    if not parts:
        return True
    if len(parts) == 1:
        return next(iter(parts))
    return F("and", frozenset(parts))


def _contra(x, cm):
    return isinstance(x, F) and x.op == "cmp" and x.args[0] in cm and not (
        x.args[1] & cm[x.args[0]].args[1])


def or_(*fs):
    parts = set()
    for f in fs:
        if f is True:
            return True
        parts |= disj(f)
    parts.discard(False)
    cm = {}
    for p in list(parts):
        if p.op == "cmp":
            k = p.args[0]
            if k in cm:
                parts.discard(p)
                parts.discard(cm[k])
                q = cmp_(k, p.args[1] | cm[k].args[1])
                if q is True:
                    return True
                cm[k] = q
                parts.add(q)
            else:
                cm[k] = p
    for p in list(parts):
        if not_(p) in parts:
            return True
    # absorption: c | (!c & X) -> c | X ; c | (c & X) -> c
    changed = True
    while changed:
        changed = False
        for p in list(parts):
            pc = conj(p)
            for q in list(parts):
                if p is q:
                    continue
                qc = conj(q)
                if pc <= qc:
                    parts.discard(q)
                    changed = True
                    break
                if len(pc) == 1:
                    (x,) = pc
                    nx = not_(x)
                    if nx in qc:
                        parts.discard(q)
                        r = and_(*(qc - {nx}))
                        return or_(r, *parts)
            if changed:
                break
    # factor two disjuncts differing in one complementary literal
    pl = list(parts)
    for i in range(len(pl)):
        for j in range(i + 1, len(pl)):
            a, b = conj(pl[i]), conj(pl[j])
            d1, d2 = a - b, b - a
            if len(d1) == 1 and len(d2) == 1:
                (x,), (y,) = d1, d2
                if not_(x) is y:
                    rest = [p for p in pl if p is not pl[i] and p is not pl[j]]
                    return or_(and_(*(a & b)), *rest)
    if not parts:
        return False
    if len(parts) == 1:
        return next(iter(parts))
    return F("or", frozenset(parts))


def implies_syn(g, f):
    """cheap syntactic implication"""
    if f is True or g is False:
        return True
    gc = conj(g)
    if f in gc:
        return True
    if isinstance(f, F):
        if f.op == "and":
            return all(implies_syn(g, x) for x in f.args[0])
        if f.op == "or":
            return any(implies_syn(g, x) for x in f.args[0])
        if f.op == "cmp":
            for x in gc:
                if x.op == "cmp" and x.args[0] == f.args[0] and x.args[1] <= f.args[1]:
                    return True
    return False


# --------------------------------------------------------------------------
# DNF + Fourier-Motzkin
# --------------------------------------------------------------------------


class TooBig(Exception):
    pass


_BIT = {NEG: 1, ZERO: 2, POS: 4}
_lit_ids: dict = {}
_lit_terms: list = []
_leaf_lits: dict = {}
_mask_leaf: dict = {}


def _leaf_lit(f):
    """leaf -> (number of its term, set of signs / truth values it admits, as bits)"""
    r = _leaf_lits.get(f)
    if r is None:
        key = ("c" if f.op == "cmp" else "b", f.args[0])
        i = _lit_ids.get(key)
        if i is None:
            i = _lit_ids[key] = len(_lit_terms)
            _lit_terms.append(key)
        m = sum(_BIT[s] for s in f.args[1]) if f.op == "cmp" else 1 if f.op == "bool" else 2
        r = _leaf_lits[f] = (i, m)
    return r


def _mask_lit(i, m):
    r = _mask_leaf.get((i, m))
    if r is None:
        r = _mask_leaf[i, m] = F("cmp", _lit_terms[i][1], frozenset(s for s, b in _BIT.items() if b & m))
    return r


def _join(o, d):
    """conjunction of two clauses (term number -> bits); o itself when o implies d, None when impossible"""
    r = None
    for k, s in d.items():
        p = o.get(k)
        if p is None:
            n = s
        else:
            n = p & s
            if not n:
                return None
            if n == p:
                continue
        if r is None:
            r = dict(o)
        r[k] = n
    return o if r is None else r


def _unique(cs):
    if len(cs) < 2:
        return cs
    seen = {}
    for c in cs:
        seen.setdefault(frozenset(c.items()), c)
    return list(seen.values())


def clauses(f, limit=4000):
    """disjunctive normal form: list of clauses (term number -> admitted signs)"""
    if f is True:
        return [{}]
    if f is False:
        return []
    if f.op == "or":
        out = []
        for a in f.args[0]:
            out += clauses(a, limit)
            if len(out) > limit:
                raise TooBig
        return _unique(out)
    if f.op == "and":
        base = {}
        ors = []
        for a in f.args[0]:
            if a.op in ("or", "and"):
                ors.append(clauses(a, limit))
            else:
                i, m = _leaf_lit(a)
                base = _join(base, {i: m})
                if base is None:
                    return []
        # disjuncts the base rules out; a disjunction with one left joins the base
        again = True
        while again:
            again = False
            rest = []
            for da in ors:
                left = []
                for d in da:
                    r = _join(base, d)
                    if r is base:
                        left = None
                        break
                    if r is not None:
                        left.append(d)
                if left is None:
                    continue
                if not left:
                    return []
                if len(left) == 1:
                    base = _join(base, left[0])
                    again = True
                else:
                    rest.append(left)
            ors = rest
        out = [base]
        for da in sorted(ors, key=len):
            nxt = []
            for o in out:
                fits = []
                for d in da:
                    r = _join(o, d)
                    if r is o:
                        fits = [o]
                        break
                    if r is not None:
                        fits.append(r)
                nxt += fits
                if len(nxt) > limit:
                    raise TooBig
            out = _unique(nxt)
        return out
    i, m = _leaf_lit(f)
    return [{i: m}]


def _possible(c):
    """is a clause satisfiable?"""
    lits = [(i, m) for i, m in c.items() if _lit_terms[i][0] == "c"]
    split = [i for i, m in lits if m == 5]
    fixed = [_mask_lit(i, m) for i, m in lits if m != 5]
    if len(split) <= 5:
        return any(feasible(fixed + [_mask_lit(i, m) for i, m in zip(split, ms)])
                   for ms in product((1, 4), repeat=len(split)))
    # a convex set is covered by hyperplanes only if one of them covers it
    return feasible(fixed) and all(feasible(fixed + [_mask_lit(i, 1)]) or feasible(fixed + [_mask_lit(i, 4)])
                                   for i in split)


def feasible(lits, facts=()):
    """Is the conjunction of comparison literals satisfiable over the reals
    (monomials treated as independent unknowns, sign hints added)?"""
    cons = []  # (dict var->coef, const, strict) meaning  sum + const > / >= 0
    nfs = []
    for l in tuple(lits) + tuple(facts):
        if l is True or l is False:
            if l is False:
                return False
            continue
        if l.op != "cmp":
            continue
        nf, s = l.args
        nfs.append(nf)
        v = {m: c for m, c in nf.t.items() if m != ()}
        k = nf.const_val()
        nv = {m: -c for m, c in v.items()}
        if s == {POS}:
            cons.append((v, k, True))
        elif s == {NEG}:
            cons.append((nv, -k, True))
        elif s == {ZERO, POS}:
            cons.append((v, k, False))
        elif s == {ZERO, NEG}:
            cons.append((nv, -k, False))
        elif s == {ZERO}:
            cons.append((v, k, False))
            cons.append((nv, -k, False))
    cons = _same_numbers(cons)
    cons += _rescaled(cons)
    monos = {m for v, _, _ in cons for m in v}
    zeros = [dict(m) for v, k, s in cons if len(v) == 1 and k == 0 and not s for m in v
             if ({m: -v[m]}, 0, False) in cons]
    known = {}
    for v, k, s in cons:
        if len(v) == 1 and k == 0 and s:
            (m, c), = v.items()
            if len(m) == 1 and m[0][1] == 1:
                known[m[0][0]] = 1 if c > 0 else -1
    for m in monos:
        d = dict(m)
        if known and len(m) > 1 and all(u in known and isinstance(e, int) for u, e in m):
            sg = 1
            for u, e in m:
                sg *= known[u] ** (e % 2)
            cons.append(({m: Fraction(sg)}, Fraction(0), True))
        if any(all(u in d and (d[u] > 0) == (e > 0) for u, e in z.items()) for z in zeros):
            cons.append(({m: Fraction(1)}, Fraction(0), False))
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
        s = mono_sign(m)
        if s:
            cons.append(({m: Fraction(1)}, Fraction(0), s == "pos"))
    return _fm(cons)


def _messy(c):
    return c.denominator > 10 ** 6 and c.numerator != 1 and c.numerator != -1


def _same_numbers(cons):
    """long decimals that agree to 10 digits once the comparisons are brought to the same form are
    one number rounded at different stages; so are those that are inverse to each other"""
    out = []
    long_ = set()
    up = lambda x: x if x >= 1 else 1 / x
    for v, k, strict in cons:
        if v:
            c = abs(v[_lead(v)])
            if c != 1:
                v = {m: x / c for m, x in v.items()}
                k = Fraction(k) / c
            long_.update(up(abs(x)) for x in v.values() if _messy(x))
            if k and _messy(Fraction(k)):
                long_.add(up(abs(Fraction(k))))
        out.append((v, k, strict))
    if len(long_) < 2:
        return out
    rep, last = {}, None
    for x in sorted(long_):
        if last is not None and x - last <= last / 10 ** 10:
            rep[x] = last
        else:
            last = x
    if not rep:
        return out

    def pick(x):
        a = abs(x)
        if a and up(a) in rep:
            r = rep[up(a)]
            return (1 if x > 0 else -1) * (r if a >= 1 else 1 / r)
        return x

    return [({m: pick(x) for m, x in v.items()}, pick(k), s) for v, k, s in out]


def _rescaled(cons):
    """a comparison holds after multiplication by a positive factor: the multiples made of
    monomials the other comparisons speak about"""
    every = {m for v, _, _ in cons for m in v}
    out = []
    for v, k, strict in cons:
        if len(v) + (k != 0) < 2 or len(v) > 4:
            continue
        terms = dict(v)
        if k:
            terms[()] = k
        first = next(iter(v))
        inv = tuple((u, -e) for u, e in first)
        tried = set()
        for m in every:
            q = _mono_mul(m, inv)
            if not q or q in tried or any(Atom._list[u].sign != "pos" for u, _ in q):
                continue
            tried.add(q)
            new, c0 = {}, Fraction(0)
            for m1, c1 in terms.items():
                m2 = _mono_mul(m1, q)
                if m2:
                    new[m2] = c1
                else:
                    c0 = c1
            if all(x in every for x in new):
                out.append((new, c0, strict))
    return out


def _fm(cons):
    cons = _dedup(cons)
    while True:
        vars_ = {}
        for v, k, s in cons:
            if not v:
                if k < 0 or (k == 0 and s):
                    return False
            for m, c in v.items():
                p, n = vars_.get(m, (0, 0))
                vars_[m] = (p + (c > 0), n + (c < 0))
        cons = [c for c in cons if c[0]]
        if not vars_:
            return True
        m = min(vars_, key=lambda x: vars_[x][0] * vars_[x][1])
        ps = [c for c in cons if c[0].get(m, 0) > 0]
        ns = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if m not in c[0]]
        if len(ps) * len(ns) > 3000:
            return True  # give up: feasible (sound for "not entailed")
        for (v1, k1, s1), (v2, k2, s2) in product(ps, ns):
            a, b = v1[m], -v2[m]
            v = {}
            for x, c in v1.items():
                v[x] = v.get(x, 0) + c * b
            for x, c in v2.items():
                v[x] = v.get(x, 0) + c * a
            v = {x: c for x, c in v.items() if c}
            rest.append((v, k1 * b + k2 * a, s1 or s2))
        cons = _dedup(rest)
        if len(cons) > 4000:
            return True


def _dedup(cons):
    best = {}
    for v, k, s in cons:
        if v:
            lead = abs(v[max(v)])
            v = {m: c / lead for m, c in v.items()}
            k = Fraction(k) / lead
        key = frozenset(v.items())
        o = best.get(key)
        if o is None or k < o[1] or (k == o[1] and s and not o[2]):
            best[key] = (v, k, s)
    return list(best.values())


_ent_cache: dict = {}


def sat(f, limit=1500):
    """False when the formula is certainly unsatisfiable."""
    if isinstance(f, bool):
        return f
    try:
        ds = clauses(f, limit)
    except TooBig:
        return True
    return any(_possible(d) for d in ds)


def entails(g, f):
    """g |= f (sound; incomplete only by giving up)."""
    if implies_syn(g, f):
        return True
    if f is False:
        return not sat(g)
    key = (g, f)
    r = _ent_cache.get(key)
    if r is None:
        # conjuncts of g that share atoms (transitively) with f
        near = _relevant(g, f)
        r = not sat(and_(near, not_(f))) or (near is not g and not sat(and_(g, not_(f))))
        _ent_cache[key] = r
    return r


def _keyset(f):
    s = set()
    for l in f.leaves():
        if l.op == "cmp":
            for m in l.args[0].t:
                if m:
                    s.add(m)
        else:
            s.add(("b", l.args[0]))
    return s


def _relevant(g, f):
    cs = list(conj(g))
    if len(cs) <= 3 or not isinstance(f, F):
        return g
    keys = _keyset(f)
    rest = [(c, _keyset(c)) for c in cs]
    out = []
    changed = True
    while changed:
        changed = False
        for it in list(rest):
            if it[1] & keys:
                out.append(it[0])
                keys |= it[1]
                rest.remove(it)
                changed = True
    return and_(*out) if out else True


def decide(g, f):
    """True / False / None: value of f wherever g holds."""
    if isinstance(f, bool):
        return f
    if implies_syn(g, f):
        return True
    nf_ = not_(f)
    if implies_syn(g, nf_):
        return False
    if entails(g, f):
        return True
    if entails(g, nf_):
        return False
    return None


def equivalent(f, g, ctx=True):
    return entails(and_(ctx, f), g) and entails(and_(ctx, g), f)
