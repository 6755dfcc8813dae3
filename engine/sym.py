"""Symbolic reals for executing the real melodist code (numpy/pandas object arrays).

A ``Sym`` is either an exact rational constant or a z3 real term.  Comparisons give
``SymBool``; converting one to ``bool`` is a branch, decided by the current ``Context``
(path exploration by re-execution, every feasible side visited).  Transcendental functions
are fresh variables constrained by sound axioms, refined by numeric lemmas on demand.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

NAN = float('nan')
INF = float('inf')


class EngineLimit(BaseException):
    """Path cannot be followed further (not an Exception: user code must not swallow it)."""


class PathInfeasible(BaseException):
    pass


CTX = None  # current Context


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


_qcache = {}


def rv(fr):
    """z3 numeral for a Fraction"""
    e = _qcache.get(fr)
    if e is None:
        e = z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
        if len(_qcache) > 20000:
            _qcache.clear()
        _qcache[fr] = e
    return e


def is_nan(x):
    return isinstance(x, float) and x != x


def is_inf(x):
    return isinstance(x, float) and (x == INF or x == -INF)


def _norm(fr):
    if fr.denominator.bit_length() > 600 or fr.numerator.bit_length() > 1200:
        try:
            return Fraction(float(fr))
        except OverflowError:
            return fr
    return fr


# ---------------------------------------------------------------- polynomials over atoms
#
# A symbolic value is a polynomial with rational coefficients over atoms; an atom is a z3
# term (input variable, application of a transcendental function, quotient, if-then-else).
# Identities are decided by this normal form, comparisons by interval bounds of the atoms
# where these suffice, everything else by the solver.

ATOMS = {}  # z3 ast id -> z3 term (keeps the term alive, ids stay unique)
MAXTERMS = 1000


def atom_id(e):
    i = e.get_id()
    if i not in ATOMS:
        ATOMS[i] = e
    return i


class Poly:
    __slots__ = ('t', 'c', '_e', '_k')  # t: monomial (sorted tuple of atom ids) -> coef, c: constant

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._e = None
        self._k = None

    @property
    def e(self):
        if self._e is None:
            parts = []
            for m, k in self.t.items():
                x = ATOMS[m[0]]
                for a in m[1:]:
                    x = x * ATOMS[a]
                parts.append(x if k == 1 else rv(k) * x)
            if self.c != 0 or not parts:
                parts.append(rv(self.c))
            self._e = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        return self._e

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items())), self.c)
        return self._k

    def hash(self):
        return hash(self.key())


def mk(t, c):
    """Poly or Fraction"""
    return Poly(t, c) if t else c


def p_of(e):
    """z3 term -> atom polynomial"""
    return Poly({(atom_id(e),): Fraction(1)}, Fraction(0))


def p_add(a, b, sb=1):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return _norm(a + sb * b)
        if sb == 1:
            return Poly(b.t, _norm(a + b.c)) if a != 0 else b
        return Poly({m: -k for m, k in b.t.items()}, _norm(a - b.c))
    if isinstance(b, Fraction):
        return a if b == 0 else Poly(a.t, _norm(a.c + sb * b))
    t = dict(a.t)
    for m, k in b.t.items():
        v = t.get(m)
        v = sb * k if v is None else v + sb * k
        if v == 0:
            del t[m]
        else:
            t[m] = _norm(v)
    return mk(t, _norm(a.c + sb * b.c))


def p_scale(a, k):
    if isinstance(a, Fraction):
        return _norm(a * k)
    if k == 0:
        return Fraction(0)
    if k == 1:
        return a
    return Poly({m: _norm(v * k) for m, v in a.t.items()}, _norm(a.c * k))


def p_mul(a, b):
    if isinstance(a, Fraction):
        return p_scale(b, a)
    if isinstance(b, Fraction):
        return p_scale(a, b)
    if len(a.t) * len(b.t) > MAXTERMS:
        return p_of(a.e * b.e)
    t = {}
    for m, k in list(a.t.items()) + ([((), a.c)] if a.c != 0 else []):
        for n, l in list(b.t.items()) + ([((), b.c)] if b.c != 0 else []):
            mm = tuple(sorted(m + n))
            v = t.get(mm, 0) + k * l
            t[mm] = v
    c = t.pop((), Fraction(0))
    r = mk({m: _norm(v) for m, v in t.items() if v != 0}, _norm(Fraction(c)))
    if CTX is not None and CTX.rules and isinstance(r, Poly):
        r = p_reduce(r, CTX.rules)
    return r


def p_reduce(p, rules):
    """rewrite (leading monomial of b) * inverse(b) -> 1 - (rest of b) * inverse(b)"""
    for _ in range(200):
        hit = None
        for m in p.t:
            for a in m:
                r = rules.get(a)
                if r is not None and _sub_mono(m, r[0] + (a,)) is not None:
                    hit = (m, a, r)
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, (lm, rest) = hit
        k = p.t[m]
        q = _sub_mono(m, lm + (a,))  # remaining factors
        t = dict(p.t)
        del t[m]
        p = mk(t, p.c)
        # k * q * (1 - rest * inv)
        p = p_add(p, Poly({q: k}, Fraction(0)) if q else k)
        if isinstance(rest, Fraction):
            if rest != 0:
                p = p_add(p, Poly({tuple(sorted(q + (a,))): -k * rest}, Fraction(0)))
        else:
            t2 = {}
            for n, l in rest.t.items():
                mm = tuple(sorted(n + q + (a,)))
                t2[mm] = t2.get(mm, 0) - k * l
            if rest.c != 0:
                mm = tuple(sorted(q + (a,)))
                t2[mm] = t2.get(mm, 0) - k * rest.c
            p = p_add(p, mk({m2: v for m2, v in t2.items() if v != 0}, Fraction(0)))
        if isinstance(p, Fraction):
            return p
    return p


def _sub_mono(m, sub):
    r = list(m)
    for a in sub:
        if a in r:
            r.remove(a)
        else:
            return None
    return tuple(r)


def p_interval(p):
    """(lo, lo_open, hi, hi_open) over the bounds known on this path; None = unbounded"""
    if isinstance(p, Fraction):
        return p, False, p, False
    B = CTX.bounds if CTX is not None else {}
    lo = hi = p.c
    lo_o = hi_o = False
    for m, k in p.t.items():
        if len(m) == 1:
            b = B.get(m[0])
            if b is None:
                return None, False, None, False
            l, lop, h, hop = b
        else:
            l, lop, h, hop = Fraction(1), False, Fraction(1), False
            for a in m:
                b = B.get(a)
                if b is None or b[0] is None or b[2] is None:
                    if len(m) == 2 and m[0] == m[1]:
                        l, lop, h, hop = Fraction(0), False, None, False
                        break
                    return None, False, None, False
                cs = (l * b[0], l * b[2], h * b[0], h * b[2])
                l, h = min(cs), max(cs)
            if len(m) == 2 and m[0] == m[1] and l is not None and l < 0:
                l = Fraction(0)
        if k < 0:
            l, lop, h, hop = h, hop, l, lop
        if l is None:
            lo = None
        elif lo is not None:
            lo = lo + k * l
            lo_o = lo_o or lop
        if h is None:
            hi = None
        elif hi is not None:
            hi = hi + k * h
            hi_o = hi_o or hop
        if lo is None and hi is None:
            return None, False, None, False
    return lo, lo_o, hi, hi_o


def p_form(p):
    """p = k * form + c with a normalised form; -> (key of the form, k)"""
    lead = max(p.t)
    k = p.t[lead]
    return tuple(sorted((m, _sig(v / k)) for m, v in p.t.items())), k


def p_decide(p, op):
    """truth of p op 0 from the bounds of its atoms or of the whole form, or None"""
    d = _decide(p_interval(p), op)
    if d is None and CTX is not None and CTX.forms and isinstance(p, Poly) and 1 < len(p.t) < 40:
        key, k = p_form(p)
        b = CTX.forms.get(key)
        if b is not None:
            lo, lop, hi, hop = b
            lo = None if lo is None else k * lo + p.c
            hi = None if hi is None else k * hi + p.c
            d = _decide((lo, lop, hi, hop) if k > 0 else (hi, hop, lo, lop), op)
    return d


def _decide(bounds, op):
    lo, lop, hi, hop = bounds
    if op == '<':
        if hi is not None and (hi < 0 or (hi == 0 and hop)):
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == '<=':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or (lo == 0 and lop)):
            return False
    elif op == '==':
        if lo is not None and (lo > 0 or (lo == 0 and lop)):
            return False
        if hi is not None and (hi < 0 or (hi == 0 and hop)):
            return False
        if lo is not None and lo == hi == 0:
            return True
    return None


def to_operand(o):
    """-> Fraction, Poly, special float (nan/inf) or None if unsupported"""
    if type(o) is Sym:
        return o.v
    if isinstance(o, bool):
        return Fraction(int(o))
    if isinstance(o, int):
        return Fraction(o)
    if isinstance(o, float):
        if o != o or o in (INF, -INF):
            return float(o)
        return Fraction(o)
    if isinstance(o, Fraction):
        return o
    if isinstance(o, SymBool):
        return p_of(z3.If(o.e, z3.RealVal(1), z3.RealVal(0)))
    if hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0 and hasattr(o, 'item'):
        if o.dtype.kind in 'iufbO':
            return to_operand(o.item())
    return None


def zx(v):
    return rv(v) if isinstance(v, Fraction) else v.e


_NEG = {'<': '>=', '<=': '>', '==': '!='}


class SymBool:
    """a condition; pos/neg: facts (poly, op) implied by its truth/falsity"""

    __slots__ = ('e', 'pos', 'neg')
    __array_priority__ = 1000

    def __init__(self, e, pos=(), neg=()):
        self.e = e
        self.pos = pos
        self.neg = neg

    def __bool__(self):
        return ctx().branch(self.e, self.pos, self.neg)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return b_and(self, o)
        if isinstance(o, (bool,)) or _is_npbool(o):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return b_or(self, o)
        if isinstance(o, (bool,)) or _is_npbool(o):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return Sym(to_operand(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return Sym(to_operand(self)) * o

    __rmul__ = __mul__

    def __hash__(self):
        return self.e.hash()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, (bool, int)) or _is_npbool(o):
            return self if o else b_not(self)
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def _is_npbool(o):
    return isinstance(o, np.bool_)


def compare(p, op):
    """p op 0 for a Poly p -> bool or SymBool"""
    d = p_decide(p, op)
    if d is not None:
        return d
    x = p.e
    e = x < 0 if op == '<' else (x <= 0 if op == '<=' else x == 0)
    return SymBool(e, ((p, op),), ((p, _NEG[op]),))


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif not c:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And(*[c.e for c in out]), tuple(f for c in out for f in c.pos), ())


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif c:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(z3.Or(*[c.e for c in out]), (), tuple(f for c in out for f in c.neg))


def b_not(c):
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.e), c.neg, c.pos)
    return not c


def b_implies(a, b):
    return b_or(b_not(a), b)


def wrap(v):
    """Fraction / Poly / z3 expr / special float -> Sym or float"""
    if isinstance(v, float):
        return v
    return Sym(v)


def as_sym(o):
    if type(o) is Sym:
        return o
    v = to_operand(o)
    if v is None:
        raise TypeError('cannot make symbolic: %r' % (o,))
    return wrap(v)


class Sym:
    __slots__ = ('v',)
    __array_priority__ = 1000

    def __init__(self, v):
        if not isinstance(v, (Fraction, Poly)):
            v = p_of(v)
        self.v = v

    # ---- helpers
    @property
    def const(self):
        return isinstance(self.v, Fraction)

    @property
    def e(self):
        return zx(self.v)

    def __repr__(self):
        if self.const:
            return 'Sym(%r)' % float(self.v)
        s = str(self.e)
        return 'Sym(%s)' % (s if len(s) < 60 else s[:57] + '...')

    def __hash__(self):
        return hash(self.v) if self.const else self.v.hash()

    # ---- arithmetic
    def __add__(self, o):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b
        return Sym(p_add(self.v, b))

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_scale(self.v, Fraction(-1)))

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return -b
        return Sym(p_add(self.v, b, -1))

    def __rsub__(self, o):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return b
        return Sym(p_add(b, self.v, -1))

    def __mul__(self, o):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return special_mul(self, b)
        return Sym(p_mul(self.v, b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        return divide(self.v, b)

    def __rtruediv__(self, o):
        a = to_operand(o)
        if a is None:
            return NotImplemented
        return divide(a, self.v)

    def __pow__(self, o, mod=None):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        return power(self, wrap(b))

    def __rpow__(self, o):
        a = to_operand(o)
        if a is None:
            return NotImplemented
        return power(wrap(a), self)

    def __abs__(self):
        if self.const:
            return Sym(abs(self.v))
        c = self >= 0
        if c is True:
            return self
        if c is False:
            return -self
        return Sym(z3.If(c.e, self.e, (-self).e))

    def __mod__(self, o):
        b = to_operand(o)
        if isinstance(b, Fraction) and self.const:
            return Sym(self.v % b)
        if isinstance(b, Fraction) and b != 0:
            q = floor(self / Sym(b))
            return self - q * Sym(b)
        raise EngineLimit('symbolic modulo')

    def __rmod__(self, o):
        a = to_operand(o)
        if a is None or isinstance(a, float):
            return NotImplemented
        return Sym(a) % self

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    # ---- comparisons
    def _cmp(self, o, op, pyop, swap):
        b = to_operand(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):  # nan, inf
            return pyop(0.0, b)
        a = self.v
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return pyop(a, b)
        d = p_add(b, a, -1) if swap else p_add(a, b, -1)
        if isinstance(d, Fraction):
            return d < 0 if op == '<' else (d <= 0 if op == '<=' else d == 0)
        return compare(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<', lambda x, y: x < y, False)

    def __le__(self, o):
        return self._cmp(o, '<=', lambda x, y: x <= y, False)

    def __gt__(self, o):
        return self._cmp(o, '<', lambda x, y: x > y, True)

    def __ge__(self, o):
        return self._cmp(o, '<=', lambda x, y: x >= y, True)

    def __eq__(self, o):
        r = self._cmp(o, '==', lambda x, y: x == y, False)
        if r is NotImplemented and hasattr(o, 'index') and hasattr(o, 'dtype'):
            return r
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '==', lambda x, y: x == y, False)
        if r is NotImplemented:
            if hasattr(o, 'index') and hasattr(o, 'dtype'):
                return r
            return True
        return b_not(r)

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---- conversions (concretisation points)
    def __float__(self):
        if self.const:
            return float(self.v)
        return ctx().realize(self.e)

    def __int__(self):
        if self.const:
            return int(self.v)
        return ctx().enum_int(self)

    __trunc__ = __int__

    def __index__(self):
        if self.const and self.v.denominator == 1:
            return int(self.v)
        raise TypeError('Sym is not an integer')

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, n=None):
        return s_round(self, n or 0)

    # numpy ufuncs on object arrays call these methods
    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return s / c

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log(self) / math.log(10.0)

    def sqrt(self):
        return s_sqrt(self)

    def arccos(self):
        return s_arccos(self)

    def arcsin(self):
        return s_arcsin(self)

    def deg2rad(self):
        return self * (math.pi / 180.0)

    radians = deg2rad

    def rad2deg(self):
        return self * (180.0 / math.pi)

    degrees = rad2deg

    def square(self):
        return self * self

    def rint(self):
        return s_round(self, 0)

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return self.const and self.v.denominator == 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _lift(name):
    """let a scalar operation meet an ndarray operand: apply it elementwise"""
    f = getattr(Sym, name)

    def g(self, o, *a):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            flat = [f(self, x) for x in o.ravel()]
            if any(r is NotImplemented for r in flat):
                return NotImplemented
            if name[2:4] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and not any(
                isinstance(r, SymBool) for r in flat
            ):
                return np.array([bool(r) for r in flat]).reshape(o.shape)
            out = np.empty(len(flat), dtype=object)
            for i, r in enumerate(flat):
                out[i] = r
            return out.reshape(o.shape)
        return f(self, o, *a)

    g.__name__ = name
    setattr(Sym, name, g)


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'rpow',
           'mod', 'rmod', 'floordiv', 'rfloordiv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _lift('__%s__' % _n)


def special_mul(s, b):
    """s (Sym) times nan/inf"""
    if b != b:
        return NAN
    if bool(s == 0):
        return NAN
    if bool(s > 0):
        return b
    return -b


def divide(a, b):
    if isinstance(a, float):
        if a != a or (isinstance(b, float)):
            return NAN
        if isinstance(b, Fraction):
            return a if b >= 0 else -a
        return a if bool(Sym(b) >= 0) else -a
    if isinstance(b, float):
        return NAN if b != b else Sym(Fraction(0))
    if isinstance(b, Fraction):
        if b == 0:
            return _div0(a)
        return Sym(p_scale(a, 1 / b))
    # symbolic divisor: zero is a separate path (numpy gives nan/inf there)
    if bool(Sym(b) == 0):
        return _div0(a)
    if isinstance(a, Fraction) and a == 0:
        return Sym(Fraction(0))
    return ctx().quotient(a, b)


def _div0(a):
    s = Sym(a)
    if bool(s == 0):
        return NAN
    return INF if bool(s > 0) else -INF


def floor(s):
    if isinstance(s, float):
        return s
    if s.const:
        return Sym(Fraction(math.floor(s.v)))
    return Sym(z3.ToReal(z3.ToInt(s.e)))


def s_round(s, n=0):
    """round half to even, to n decimals (numpy semantics)"""
    if isinstance(s, float):
        return s
    f = Fraction(10) ** int(n)
    if s.const:
        return Sym(Fraction(round(s.v * f)) / f)
    x = s * f
    fl = z3.ToInt(x.e + rv(Fraction(1, 2)))
    flr = z3.ToReal(fl)
    half = flr == x.e + rv(Fraction(1, 2))
    odd = fl % 2 == 1
    return Sym(z3.If(z3.And(half, odd), flr - 1, flr)) / f


def s_min(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return min(a, b)
        return (b if a > 0 else a) if is_inf(a) else (a if b > 0 else b)
    a, b = as_sym(a), as_sym(b)
    c = a <= b
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def s_max(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return max(a, b)
        return (a if a > 0 else b) if is_inf(a) else (b if b > 0 else a)
    a, b = as_sym(a), as_sym(b)
    c = a >= b
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def ite(c, a, b):
    if isinstance(c, SymBool):
        if is_nan(a) or is_nan(b) or is_inf(a) or is_inf(b):
            return a if bool(c) else b
        a, b = as_sym(a), as_sym(b)
        r = Sym(z3.If(c.e, a.e, b.e))
        la, lao, ha, hao = p_interval(a.v)
        lb, lbo, hb, hbo = p_interval(b.v)
        # the bounds of the branches taken under their own condition
        for p, op in c.pos:
            la, ha = _tighten(a.v, p, op, la, ha)
        for p, op in c.neg:
            lb, hb = _tighten(b.v, p, op, lb, hb)
        lo = min(la, lb) if la is not None and lb is not None else None
        hi = max(ha, hb) if ha is not None and hb is not None else None
        if lo is not None or hi is not None:
            ctx().set_bound(next(iter(r.v.t))[0], lo, False, hi, False)
        return r
    return a if c else b


def _tighten(a, p, op, lo, hi):
    """bounds of a given that p op 0 holds, when p - a or p + a is bounded"""
    d = p_add(a, p, -1)  # a = p + d
    l2, _, h2, _ = p_interval(d)
    if op in ('<', '<=') and h2 is not None:
        hi = h2 if hi is None else min(hi, h2)
    if op in ('>', '>=') and l2 is not None:
        lo = l2 if lo is None else max(lo, l2)
    d = p_add(a, p)  # a = -p + d
    l2, _, h2, _ = p_interval(d)
    if op in ('<', '<=') and l2 is not None:
        lo = l2 if lo is None else max(lo, l2)
    if op in ('>', '>=') and h2 is not None:
        hi = h2 if hi is None else min(hi, h2)
    return lo, hi


# ---------------------------------------------------------------- transcendental functions

def _sig(fr):
    # arguments that agree to 13 digits (constants folded differently in floating point) are
    # taken as the same argument
    return '%.12e' % float(fr)


def _key(s):
    if s.const:
        return _sig(s.v)
    return tuple(sorted((m, _sig(k)) for m, k in s.v.t.items())), _sig(s.v.c)


def _const_fn(f, s):
    try:
        r = f(float(s.v))
    except ValueError:
        return NAN
    except OverflowError:
        return INF
    return wrap(to_operand(float(r)))


def trig(s):
    """-> (cos, sin)"""
    if isinstance(s, float):
        return NAN, NAN
    if s.const:
        x = float(s.v)
        return as_sym(math.cos(x)), as_sym(math.sin(x))
    return ctx().trig(s)


def s_cos(s):
    return trig(_s(s))[0]


def s_sin(s):
    return trig(_s(s))[1]


def s_tan(s):
    c, si = trig(_s(s))
    return si / c


def _s(x):
    if isinstance(x, float) and not isinstance(x, bool):
        return x if (x != x or x in (INF, -INF)) else Sym(Fraction(x))
    return as_sym(x)


def s_exp(s):
    s = _s(s)
    if isinstance(s, float):
        return NAN if s != s else (INF if s > 0 else Sym(Fraction(0)))
    if s.const:
        return _const_fn(math.exp, s)
    # exp(log(y) + p) = y * exp(p)
    f = Sym(Fraction(1))
    for m, k in s.v.t.items():
        if len(m) == 1 and m[0] in ctx().logarg and k.denominator == 1 and 0 < abs(k) <= 2:
            a = Sym(ctx().logarg[m[0]])
            for _ in range(abs(int(k))):
                f = f * a if k > 0 else f / a
            s = Sym(p_add(s.v, Poly({m: k}, Fraction(0)), -1))
    if s.const:
        return f * _const_fn(math.exp, s)
    # exp(p + c) = exp(p + c') * exp(c - c')
    k = _key(Sym(Poly(s.v.t, Fraction(0))))
    old = ctx().expmap.get(k)
    if old is not None:
        return f * old[1] * as_sym(math.exp(float(s.v.c - old[0])))
    r = ctx().app('exp', s)
    ctx().expmap[k] = (s.v.c, r)
    (m, _), = r.v.t.items()
    ctx().exparg[m[0]] = s.v
    return f * r


def s_log(s):
    s = _s(s)
    if isinstance(s, float):
        return s if s > 0 else NAN
    if s.const:
        if s.v == 0:
            return -INF
        return _const_fn(math.log, s)
    if bool(s > 0):
        return pos_log(s)
    if bool(s == 0):
        return -INF
    return NAN


def pos_log(s):
    """log of a value known to be positive; products are split where all factors are positive"""
    c = ctx()
    if len(s.v.t) == 1 and s.v.c == 0:
        (m, k), = s.v.t.items()
        if k > 0 and (len(m) > 1 or k != 1 or m[0] in c.exparg or m[0] in c.divisor):
            if all(p_decide(Poly({(a,): Fraction(-1)}, Fraction(0)), '<') is True for a in m):
                r = as_sym(math.log(float(k)))
                for a in m:
                    if a in c.exparg:
                        r = r + Sym(c.exparg[a])
                    elif a in c.divisor:
                        r = r - pos_log(Sym(c.divisor[a]))
                    else:
                        r = r + pos_log(Sym(Poly({(a,): Fraction(1)}, Fraction(0))))
                return r
    r = c.app('log', s)
    (m, _), = r.v.t.items()
    c.logarg[m[0]] = s.v
    return r


def s_sqrt(s):
    s = _s(s)
    if isinstance(s, float):
        return s if s > 0 else NAN
    if s.const:
        return _const_fn(math.sqrt, s)
    if bool(s < 0):
        return NAN
    return ctx().app('sqrt', s)


def s_arccos(s):
    s = _s(s)
    if isinstance(s, float):
        return NAN
    if s.const:
        return _const_fn(math.acos, s)
    if not bool(b_and(s >= -1, s <= 1)):
        return NAN
    if s.v.t[max(s.v.t)] < 0:  # acos(-x) = pi - acos(x)
        return as_sym(math.pi) - ctx().app('acos', -s)
    return ctx().app('acos', s)


def s_arcsin(s):
    s = _s(s)
    if isinstance(s, float):
        return NAN
    if s.const:
        return _const_fn(math.asin, s)
    if not bool(b_and(s >= -1, s <= 1)):
        return NAN
    if s.v.t[max(s.v.t)] < 0:
        return -ctx().app('asin', -s)
    return ctx().app('asin', s)


def power(a, b):
    if is_nan(a) or is_nan(b):
        return NAN
    if isinstance(b, float):  # inf
        raise EngineLimit('power inf')
    if isinstance(a, float):  # inf
        if b.const:
            return INF if b.v > 0 else (Sym(Fraction(1)) if b.v == 0 else Sym(Fraction(0)))
        raise EngineLimit('inf power')
    if b.const:
        ex = b.v
        if a.const:
            if ex.denominator == 1 and abs(ex) < 64:
                if ex < 0 and a.v == 0:
                    return INF
                return Sym(_norm(a.v ** int(ex)))
            try:
                r = float(a.v) ** float(ex)
            except ZeroDivisionError:
                return INF
            if isinstance(r, complex):
                return NAN
            return as_sym(r)
        if ex.denominator == 1 and 0 <= ex <= 8:
            r = Sym(Fraction(1))
            for _ in range(int(ex)):
                r = r * a
            return r
        if ex.denominator == 1 and -8 <= ex < 0:
            return Sym(Fraction(1)) / power(a, Sym(-ex))
        if ex == Fraction(1, 2):
            return s_sqrt(a)
    if bool(a < 0):
        return NAN
    if bool(a == 0):
        if bool(b > 0):
            return Sym(Fraction(0))
        if bool(b == 0):
            return Sym(Fraction(1))
        return INF
    return ctx().pow_app(a, b)


# ---------------------------------------------------------------- path context

class Stats:
    def __init__(self):
        self.queries = 0
        self.hard = 0  # branch queries without an answer
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0

    def add(self, o):
        for k in ('queries', 'solver_s', 'sat', 'unsat', 'unknown'):
            setattr(self, k, getattr(self, k) + getattr(o, k))


def model_float(m, e):
    v = m.eval(e, model_completion=True)
    return num_to_fraction(v)


def num_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineLimit('cannot evaluate %s' % v)


FN = {
    'exp': math.exp,
    'log': math.log,
    'sqrt': math.sqrt,
    'acos': math.acos,
    'asin': math.asin,
    'cos': math.cos,
    'sin': math.sin,
}

EPS = Fraction(1, 10**9)


_varcache = {}


def variables(e):
    """ids of the constants occurring in a z3 term"""
    i = e.get_id()
    r = _varcache.get(i)
    if r is None:
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            ch = x.children()
            if not ch:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(k)
            else:
                todo.extend(ch)
        if len(_varcache) > 200000:
            _varcache.clear()
        r = _varcache[i] = (frozenset(out), e)  # e stays alive, ids stay unique
    return r[0]


class Context:
    def __init__(self, prefix, stats, timeout_ms=20000, deadline=None, max_decisions=20000):
        self.prefix = prefix  # list of recorded decisions
        self.decisions = []
        self.alternatives = []  # decision lists still to explore
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.pc = []
        self.vars = {}  # name -> z3 var
        self.apps = {}  # kind -> list of (argument term, result var)
        self.appkeys = {}
        self.nfresh = 0
        self.realized = 0
        self.inexact = []  # reasons this path is not exhaustive
        self.model = None
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.quots = {}
        self.facts = []  # (poly, op) decided on this path
        self.bounds = {}  # atom id -> (lo, lo_open, hi, hi_open)
        self.forms = {}  # bounds of whole polynomials, by normalised form
        self.divisor = {}  # inverse atom -> divisor
        self.expmap = {}  # non-constant part of an exp argument -> (constant part, result)
        self.logarg = {}  # log atom -> argument polynomial
        self.exparg = {}  # exp atom -> argument polynomial
        self.rules = {}  # inverse atom -> (leading monomial of the divisor, rest of the divisor)
        self.defs = []  # per constraint of pc: variables it defines, or None

    # -- variables
    def set_timeout(self, ms):
        self.timeout_ms = ms
        self.solver.set('timeout', ms)

    def fresh(self, hint):
        self.nfresh += 1
        return z3.Real('%s!%d' % (hint, self.nfresh))

    def var(self, name, sort='real'):
        if name in self.vars:
            return self.vars[name]
        v = z3.Real(name) if sort == 'real' else z3.Int(name)
        self.vars[name] = v
        return v

    def add(self, e, defs=None):
        """defs: fresh variables that this constraint helps to define (conservative extension)"""
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.defs.append(None if defs is None else frozenset(d.get_id() for d in defs))
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def bound(self, v, lo=None, lo_open=False, hi=None, hi_open=False, defs=None):
        """constrain a fresh variable to a range"""
        if lo is not None:
            self.add(v > rv(lo) if lo_open else v >= rv(lo), defs)
        if hi is not None:
            self.add(v < rv(hi) if hi_open else v <= rv(hi), defs)
        self.set_bound(atom_id(v), lo, lo_open, hi, hi_open)

    def set_bound(self, a, lo, lo_open, hi, hi_open, store=None):
        """record an implied bound (intersected with what is known)"""
        store = self.bounds if store is None else store
        b = store.get(a)
        if b is not None:
            if lo is None or (b[0] is not None and b[0] > lo):
                lo, lo_open = b[0], b[1]
            elif b[0] == lo:
                lo_open = lo_open or b[1]
            if hi is None or (b[2] is not None and b[2] < hi):
                hi, hi_open = b[2], b[3]
            elif b[2] == hi:
                hi_open = hi_open or b[3]
        store[a] = (lo, lo_open, hi, hi_open)

    def learn(self, facts):
        """facts (poly, op) known on this path -> bounds of single atoms"""
        for p, op in facts:
            if isinstance(p, Fraction) or len(p.t) >= 40:
                continue
            if len(p.t) == 1 and len(next(iter(p.t))) == 1:
                ((i,), k), = p.t.items()
                store = self.bounds
            else:
                i, k = p_form(p)
                store = self.forms
            x = -p.c / k
            if op == '==':
                self.set_bound(i, x, False, x, False, store)
            elif op in ('<', '<='):
                if k > 0:
                    self.set_bound(i, None, False, x, op == '<', store)
                else:
                    self.set_bound(i, x, op == '<', None, False, store)
            elif op in ('>', '>='):
                if k > 0:
                    self.set_bound(i, x, op == '>', None, False, store)
                else:
                    self.set_bound(i, None, False, x, op == '>', store)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.add(c.e)
            self.learn(c.pos)
            return
        if not c:
            raise PathInfeasible()

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit('time limit')
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def sliced(self, *extra):
        """fresh solver with the definitions that the query depends on only; fewer constraints,
        so its 'unsat' carries over while its 'sat' is only a candidate"""
        cone = set()
        for e in extra:
            cone |= variables(e)
        use = [d is None for d in self.defs]
        again = True
        while again:
            again = False
            for i, d in enumerate(self.defs):
                if not use[i] and d <= cone:
                    use[i] = again = True
                    cone |= variables(self.pc[i])
        fresh = set().union(*[d for d in self.defs if d is not None]) - cone
        s = z3.Solver()
        s.set('timeout', min(self.timeout_ms, 5000))
        for e, u, d in zip(self.pc, use, self.defs):
            if u and (d is not None or not (variables(e) & fresh)):
                s.add(e)
        s.add(*extra)
        return s

    def sliced_check(self, *extra):
        s = self.sliced(*extra)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, s

    def feasible(self, e):
        """feasibility of a branch; not unsat = has to be explored"""
        if self.stats.hard >= 2:
            r, _ = self.sliced_check(e)
            return r
        if len(self.pc) > 60:
            self.solver.set('timeout', min(self.timeout_ms, 3000))
        r = self.check(e)
        self.solver.set('timeout', self.timeout_ms)
        if r == z3.unknown:
            self.stats.hard += 1
            r, _ = self.sliced_check(e)
        elif r == z3.sat and self.model is None:
            self.model = self.solver.model()
        return r

    # -- branching
    def branch(self, e, pos=(), neg=()):
        r = self._branch(e)
        facts = pos if r else neg
        self.facts.extend(facts)
        self.learn(facts)
        return r

    def _branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.decisions)
        if i >= self.max_decisions:
            raise EngineLimit('too many decisions on one path')
        ne = z3.Not(e)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d[0] == 'B':
                if d[2]:  # was not forced
                    self.add(e if d[1] else ne)
                return d[1]
            raise EngineLimit('nondeterministic re-execution')
        # model shortcut
        can_t = can_f = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if can_t is None:
            can_t = self.feasible(e) != z3.unsat
            if not can_t:
                can_f = True
        if can_f is None:
            can_f = self.feasible(ne) != z3.unsat
        if can_t and can_f:
            self.alternatives.append(self.decisions + [('B', False, True)])
            self.decisions.append(('B', True, True))
            self.add(e)
            return True
        if can_t:
            self.decisions.append(('B', True, False))
            return True
        if can_f:
            self.decisions.append(('B', False, False))
            return False
        raise PathInfeasible()

    def choose(self, var, lo, hi):
        """fork over the integer values lo..hi of an Int variable"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != 'C':
                raise EngineLimit('nondeterministic re-execution')
            self.decisions.append(d)
            self.add(var == d[1])
            return d[1]
        vals = []
        i = var.get_id()
        unused = not any(i in variables(e) for e in self.pc)
        for v in range(lo, hi + 1):
            if unused:
                vals.append(v)
                continue
            if self.model is not None and z3.is_true(
                self.model.eval(var == v, model_completion=True)
            ):
                vals.append(v)
                continue
            if self.check(var == v) != z3.unsat:
                vals.append(v)
        if not vals:
            raise PathInfeasible()
        for v in vals[1:]:
            self.alternatives.append(self.decisions + [('C', v)])
        self.decisions.append(('C', vals[0]))
        self.add(var == vals[0])
        return vals[0]

    def enum_int(self, s):
        """int(s): fork over every feasible truncated value (complete), at most 64"""
        e = s.e
        t = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        for _ in range(64):
            i = len(self.decisions)
            if i < len(self.prefix) and self.prefix[i][0] == 'I':
                d = self.prefix[i]
                self.decisions.append(d)
                if d[2]:
                    self.add(t == d[1])
                    return d[1]
                self.add(t != d[1])
                continue
            r = self.check()
            if r != z3.sat:
                self.inexact.append('int() of a symbolic value not decided')
                raise EngineLimit('int() not decided')
            val = self.solver.model().eval(t, model_completion=True).as_long()
            if self.check(t != val) != z3.unsat:
                self.alternatives.append(self.decisions + [('I', val, False)])
            self.decisions.append(('I', val, True))
            self.add(t == val)
            return val
        return int(self.realize(e))

    def realize(self, e):
        """concretise (C boundary): the path is no longer exhaustive"""
        i = len(self.decisions)
        self.realized += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.add(e == rv(d[1]))
            return float(d[1])
        r = self.check()
        if r != z3.sat:
            raise EngineLimit('realize failed')
        v = model_float(self.solver.model(), e)
        v = Fraction(float(v))
        if self.check(e == rv(v)) != z3.sat:
            v = model_float(self.solver.model(), e)
        self.decisions.append(('R', v))
        self.add(e == rv(v))
        return float(v)

    # -- quotients
    def quotient(self, a, b):
        """a / b for b known nonzero on this path (b a Poly)"""
        if isinstance(a, Poly) and len(a.t) == len(b.t):
            m = next(iter(b.t))
            if m in a.t:
                k = a.t[m] / b.t[m]
                rem = p_add(a, p_scale(b, k), -1)
                if isinstance(rem, Fraction):  # (k b + rem) / b
                    return Sym(k if rem == 0 else p_add(p_scale(self.inverse(b), rem), k))
        if isinstance(a, Fraction) or len(a.t) <= 8:
            return Sym(p_mul(a, self.inverse(b)))
        k = (a.key(), b.key())
        if k not in self.quots:
            q = self.fresh('quot')
            self.add(q * b.e == a.e, (q,))
            la, _, ha, _ = p_interval(a)
            lb, _, hb, _ = p_interval(b)
            if None not in (la, ha, lb, hb) and (lb > 0 or hb < 0):
                cs = [la / lb, la / hb, ha / lb, ha / hb]
                self.set_bound(atom_id(q), min(cs), False, max(cs), False)
            self.quots[k] = p_of(q)
        return Sym(self.quots[k])

    def inverse(self, b):
        if b.c == 0 and len(b.t) == 1:
            (m, k), = b.t.items()
            if len(m) > 1 or m[0] in self.divisor:
                r = 1 / k
                for a in m:
                    r = p_mul(r, self.divisor[a] if a in self.divisor
                              else self.inverse(Poly({(a,): Fraction(1)}, Fraction(0))))
                return r
        lm = max(b.t, key=lambda m: (len(m), m))
        lc = b.t[lm]
        if lc != 1:
            return p_scale(self.inverse(p_scale(b, 1 / lc)), 1 / lc)
        k = b.key()
        if k not in self.quots:
            v = self.fresh('inv')
            self.add(v * b.e == 1, (v,))
            i = atom_id(v)
            lb, lo, hb, ho = p_interval(b)
            if lb is not None and lb >= 0:
                self.set_bound(i, 1 / hb if hb else Fraction(0), False,
                               1 / lb if lb > 0 else None, False)
            elif hb is not None and hb <= 0:
                self.set_bound(i, 1 / hb if hb < 0 else None, False,
                               1 / lb if lb else Fraction(0), False)
            rest = p_add(b, Poly({lm: Fraction(1)}, Fraction(0)), -1)
            self.rules[i] = (lm, rest)
            self.divisor[i] = b
            self.quots[k] = p_of(v)
        return self.quots[k]

    # -- transcendental applications
    def trig(self, s):
        k = ('trig', _key(s))
        if k in self.appkeys:
            return self.appkeys[k]
        if s.v.c != 0:
            # addition theorem for the constant part
            c0, s0 = as_sym(math.cos(float(s.v.c))), as_sym(math.sin(float(s.v.c)))
            c, si = self.trig(Sym(Poly(s.v.t, Fraction(0))))
            self.appkeys[k] = (c * c0 - si * s0, si * c0 + c * s0)
            return self.appkeys[k]
        if s.v.t[max(s.v.t)] < 0:
            c, si = self.trig(-s)
            self.appkeys[k] = (c, -si)
            return self.appkeys[k]
        x = s.e
        c, si = self.fresh('cos'), self.fresh('sin')
        L = self.apps.setdefault('trig', [])
        one = Fraction(1)
        self.bound(c, -one, False, one, False, (c,))
        self.bound(si, -one, False, one, False, (si,))
        self.add(c * c + si * si == 1, (c, si))
        self._trig_axioms(x, c, si)
        for (x2, c2, s2) in L[:40]:
            self.add(z3.Implies(x == x2, z3.And(c == c2, si == s2)), (c, si, c2, s2))
            self.add(z3.Implies(x == -x2, z3.And(c == c2, si == -s2)), (c, si, c2, s2))
        L.append((x, c, si))
        self.appkeys[k] = (Sym(c), Sym(si))
        return self.appkeys[k]

    def _trig_axioms(self, x, c, si):
        pi = rv(Fraction(math.pi))
        h = rv(Fraction(math.pi) / 2)
        self.add(z3.Implies(z3.And(x >= -h, x <= h), c >= 0), (c, si))
        self.add(z3.Implies(z3.And(x >= h, x <= 3 * h), c <= rv(EPS)), (c, si))
        self.add(z3.Implies(z3.And(x >= -3 * h, x <= -h), c <= rv(EPS)), (c, si))
        self.add(z3.Implies(z3.And(x >= 0, x <= pi), si >= 0), (c, si))
        self.add(z3.Implies(z3.And(x >= -pi, x <= 0), si <= 0), (c, si))
        self.add(z3.Implies(x == 0, z3.And(c == 1, si == 0)), (c, si))

    def app(self, kind, s):
        k = (kind, _key(s))
        if k in self.appkeys:
            return self.appkeys[k]
        x = s.e
        r = self.fresh(kind)
        L = self.apps.setdefault(kind, [])
        getattr(self, '_ax_' + kind)(x, r, s)
        self._app_bounds(kind, s, r)
        for (x2, r2) in L:
            self._mono(x, r, x2, r2, dec=(kind == 'acos'))
        L.append((x, r))
        if kind == 'exp':
            for (y, l) in self.apps.get('log', []):
                self._inv(x, r, y, l)
        if kind == 'log':
            for (x2, e2) in self.apps.get('exp', []):
                self._inv(x2, e2, x, r)
        self.appkeys[k] = Sym(r)
        return self.appkeys[k]

    def _app_bounds(self, kind, s, r):
        """interval of an application from the interval of its argument (rounded outward)"""
        lo, _, hi, _ = p_interval(s.v)
        f = FN[kind]

        def at(v, d):
            if v is None:
                return None
            try:
                y = Fraction(f(float(v)))
            except (ValueError, OverflowError):
                return None
            return y + d * EPS * (1 + abs(y))

        if kind == 'acos':
            l, h = at(hi, -1), at(lo, 1)
        else:
            l, h = at(lo, -1), at(hi, 1)
        if kind in ('exp', 'sqrt', 'acos') and (l is None or l < 0):
            l = Fraction(0)
        i = atom_id(r)
        self.set_bound(i, l, kind == 'exp' and l == 0, h, False)
        if l is not None:
            self.add(r >= rv(l), (r,))
        if h is not None:
            self.add(r <= rv(h), (r,))

    def _mono(self, x, r, x2, r2, dec=False):
        self.add(z3.Implies(x == x2, r == r2), (r, r2))
        if dec:
            self.add(z3.Implies(x < x2, r > r2), (r, r2))
            self.add(z3.Implies(x > x2, r < r2), (r, r2))
        else:
            self.add(z3.Implies(x < x2, r < r2), (r, r2))
            self.add(z3.Implies(x > x2, r > r2), (r, r2))

    def _inv(self, x, ex, y, ly):
        # exp(x) = ex, log(y) = ly
        self.add(z3.Implies(y == ex, ly == x), (ex, ly))
        self.add(z3.Implies(y < ex, ly < x), (ex, ly))
        self.add(z3.Implies(y > ex, ly > x), (ex, ly))

    def _ax_exp(self, x, r, s):
        self.add(r > 0, (r,))
        self.add(r >= 1 + x, (r,))
        self.add(z3.Implies(x == 0, r == 1), (r,))
        self.add(z3.Implies(x < 0, r < 1), (r,))
        self.add(z3.Implies(x > 0, r > 1), (r,))

    def _ax_log(self, x, r, s):
        self.add(r <= x - 1, (r,))
        self.add(z3.Implies(x == 1, r == 0), (r,))
        self.add(z3.Implies(x < 1, r < 0), (r,))
        self.add(z3.Implies(x > 1, r > 0), (r,))

    def _ax_sqrt(self, x, r, s):
        self.add(r >= 0, (r,))
        self.add(r * r == x, (r,))

    def _ax_acos(self, x, r, s):
        pi = Fraction(math.pi)
        self.add(z3.And(r >= 0, r <= rv(pi)), (r,))
        self.add(z3.Implies(x == 1, r == 0), (r,))
        self.add(z3.Implies(x == -1, r == rv(pi)), (r,))
        self.add(z3.Implies(x == 0, r == rv(pi / 2)), (r,))
        self.add(z3.Implies(x > 0, r < rv(pi / 2)), (r,))
        self.add(z3.Implies(x < 0, r > rv(pi / 2)), (r,))
        # cos(acos(x)) = x, sin(acos(x)) = sqrt(1 - x^2)
        v = self.fresh('sinacos')
        self.add(z3.And(v >= 0, v <= 1, v * v == 1 - x * x), (v,))
        self.appkeys[('trig', _key(Sym(r)))] = (s, Sym(v))
        self.set_bound(atom_id(v), Fraction(0), False, Fraction(1), False)
        self.apps.setdefault('trig', []).append((r, x, v))

    def _ax_asin(self, x, r, s):
        pi = Fraction(math.pi)
        self.add(z3.And(r >= rv(-pi / 2), r <= rv(pi / 2)), (r,))
        self.add(z3.Implies(x == 0, r == 0), (r,))
        self.add(z3.Implies(x > 0, r > 0), (r,))
        self.add(z3.Implies(x < 0, r < 0), (r,))
        v = self.fresh('cosasin')
        self.add(z3.And(v >= 0, v <= 1, v * v == 1 - x * x), (v,))
        self.appkeys[('trig', _key(Sym(r)))] = (Sym(v), s)
        self.set_bound(atom_id(v), Fraction(0), False, Fraction(1), False)
        self.apps.setdefault('trig', []).append((r, v, x))

    def pow_app(self, a, b):
        k = ('pow', _key(a), _key(b))
        if k in self.appkeys:
            return self.appkeys[k]
        x, y = a.e, b.e
        r = self.fresh('pow')
        self.add(r > 0, (r,))
        self.set_bound(atom_id(r), Fraction(0), True, None, False)
        self.add(z3.Implies(x == 1, r == 1), (r,))
        self.add(z3.Implies(y == 0, r == 1), (r,))
        self.add(z3.Implies(y == 1, r == x), (r,))
        self.add(z3.Implies(z3.And(y > 0, x > 1), r > 1), (r,))
        self.add(z3.Implies(z3.And(y > 0, x < 1), r < 1), (r,))
        self.add(z3.Implies(z3.And(y < 0, x > 1), r < 1), (r,))
        self.add(z3.Implies(z3.And(y < 0, x < 1), r > 1), (r,))
        L = self.apps.setdefault('pow', [])
        for (x2, y2, r2) in L:
            same = z3.simplify(y == y2)
            self.add(z3.Implies(z3.And(y == y2, x == x2), r == r2), (r, r2))
            if z3.is_true(same) and b.const:
                if b.v > 0:
                    self._mono(x, r, x2, r2)
                elif b.v < 0:
                    self._mono(x, r, x2, r2, dec=True)
        L.append((x, y, r))
        self.appkeys[k] = Sym(r)
        return self.appkeys[k]

    # -- numeric refinement of the applications at a model point: sound lemmas
    def refine(self, m, s):
        """add to solver s lemmas that exclude wrong function values in model m;
        returns the number of lemmas added"""
        n = 0
        for kind in ('exp', 'log', 'acos', 'asin', 'sqrt'):
            for (x, r) in self.apps.get(kind, []):
                try:
                    xv = model_float(m, x)
                    tv = Fraction(FN[kind](float(xv)))
                except (ValueError, OverflowError, EngineLimit):
                    continue
                xf = Fraction(float(xv))
                mv = model_float(m, r)
                eps = EPS * (1 + abs(tv))
                if abs(mv - tv) <= 2 * eps:
                    continue
                if kind == 'acos':
                    s.add(z3.Implies(x <= rv(xf), r >= rv(tv - eps)))
                    s.add(z3.Implies(x >= rv(xf), r <= rv(tv + eps)))
                else:
                    s.add(z3.Implies(x <= rv(xf), r <= rv(tv + eps)))
                    s.add(z3.Implies(x >= rv(xf), r >= rv(tv - eps)))
                if kind == 'exp' and abs(tv) < 10**12:  # tangent / convexity
                    s.add(r >= rv(tv - eps) + rv(tv) * (x - rv(xf)) - rv(EPS) * z3.If(x >= rv(xf), x - rv(xf), rv(xf) - x))
                n += 1
        for (x, c, si) in self.apps.get('trig', []):
            try:
                xv = float(model_float(m, x))
            except EngineLimit:
                continue
            cv, sv = Fraction(math.cos(xv)), Fraction(math.sin(xv))
            if (
                abs(model_float(m, c) - cv) <= 2 * EPS
                and abs(model_float(m, si) - sv) <= 2 * EPS
            ):
                continue
            d = z3.If(x >= rv(Fraction(xv)), x - rv(Fraction(xv)), rv(Fraction(xv)) - x) + rv(EPS)
            s.add(c - rv(cv) <= d, rv(cv) - c <= d, si - rv(sv) <= d, rv(sv) - si <= d)
            n += 1
        for (x, y, r) in self.apps.get('pow', []):
            try:
                xv, yv = float(model_float(m, x)), float(model_float(m, y))
                tv = Fraction(xv ** yv)
            except (ValueError, OverflowError, ZeroDivisionError, EngineLimit):
                continue
            eps = EPS * (1 + abs(tv))
            if abs(model_float(m, r) - tv) <= 2 * eps:
                continue
            up = z3.And(y == rv(Fraction(yv)))
            if yv > 0:
                s.add(z3.Implies(z3.And(up, x <= rv(Fraction(xv))), r <= rv(tv + eps)))
                s.add(z3.Implies(z3.And(up, x >= rv(Fraction(xv))), r >= rv(tv - eps)))
                n += 1
        return n
