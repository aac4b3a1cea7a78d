"""Symbolic values and the path context of the verifier.

Integers are mathematical integers, floats are mathematical reals with an
explicit not-a-number flag.  A Boolean test on a symbolic value forks the
path (by re-execution) unless the path condition already decides it.
"""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import math
import time
from fractions import Fraction
from enum import Enum
import numpy as np
import z3
from . import ring

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The engine cannot translate this construct."""


class NeedFork(Exception):
    """A merged branch met something that cannot be merged."""


class PathEnd(BaseException):
    """The current path is complete (or infeasible)."""


class Budget(BaseException):
    """exploration budget exhausted"""


# ---------------------------------------------------------------- helpers
def fr(x):
    """exact rational for a float literal: a short decimal literal means the
    decimal, a long one means the double itself"""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite constant')
    r = repr(x)
    mant = r.split('e')[0].replace('-', '').replace('.', '').lstrip('0')
    if len(mant) <= 14:
        return Fraction(r)
    return Fraction(x)


def is_num(x):
    return isinstance(x, (bool, int, float, np.integer, np.floating, np.bool_))


def is_sym(x):
    return isinstance(x, SBase)


def zreal(x):
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, SInt):
        return z3.ToReal(x.z)
    if isinstance(x, SBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if is_num(x) or isinstance(x, Enum):
        f = fr(x)
        return z3.Q(f.numerator, f.denominator)
    raise Unsupported('real of %r' % type(x))


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    raise Unsupported('int of %r' % type(x))


def zbool(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SInt):
        return x.z != 0
    if isinstance(x, SReal):
        b = x.z != 0
        return b if x.nan is None else z3.Or(x.nan, b)
    if is_num(x):
        return z3.BoolVal(bool(x))
    raise Unsupported('bool of %r' % type(x))


def nanof(x):
    if isinstance(x, SReal):
        return x.nan
    if isinstance(x, (float, np.floating)) and x != x:
        return z3.BoolVal(True)
    return None


def nor(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def isnanc(x):
    return isinstance(x, (float, np.floating)) and x != x


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def mkreal(z, nan=None):
    if C.ringnorm:
        z = ring.tidy(z)
    if nan is not None:
        nan = z3.simplify(nan)
        if z3.is_false(nan):
            nan = None
        elif z3.is_true(nan):
            return math.nan
    # keep rational constants symbolic: exact arithmetic
    return SReal(z, nan)


def elementwise(f, a, b):
    a2, b2 = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a2.shape, dtype=object)
    for i in np.ndindex(a2.shape):
        out[i] = f(a2[i], b2[i])
    return out


def _arr(o):
    return isinstance(o, np.ndarray)


class SBase:
    __array_ufunc__ = None
    __slots__ = ()

    def __hash__(self):
        return id(self)


def _isreal(x):
    return isinstance(x, (SReal, float, np.floating, Fraction))


def sadd(a, b):
    if _isreal(a) or _isreal(b):
        if isnanc(a) or isnanc(b):
            return math.nan
        return mkreal(zreal(a)+zreal(b), nor(nanof(a), nanof(b)))
    return mkint(zint(a)+zint(b))


def ssub(a, b):
    if _isreal(a) or _isreal(b):
        if isnanc(a) or isnanc(b):
            return math.nan
        return mkreal(zreal(a)-zreal(b), nor(nanof(a), nanof(b)))
    return mkint(zint(a)-zint(b))


def smul(a, b):
    if _isreal(a) or _isreal(b):
        if isnanc(a) or isnanc(b):
            return math.nan
        if C.squares is not None and is_sym(a) and is_sym(b) and zreal(a).eq(zreal(b)):
            return SReal(opaque_square(zreal(a)), nanof(a))
        return mkreal(zreal(a)*zreal(b), nor(nanof(a), nanof(b)))
    return mkint(zint(a)*zint(b))


_SQ = z3.Function('square', z3.RealSort(), z3.RealSort())


_RAT = z3.Function('square_over', z3.RealSort(), z3.RealSort(), z3.RealSort())


def opaque_ratio(q, d):
    """a square divided by a positive input: likewise"""
    b = C.bounds.get(d.decl().name()) if d.num_args() == 0 else None
    if not b or b[0] <= 0:
        return None
    z = q.arg(0)
    if not any(u.eq(z) and e.eq(d) for u, e in C.ratios):
        m, r, f = z3.If(z >= 0, z, -z), _RAT(z, d), [_RAT(z, d) >= 0]
        f += [z3.Implies(m <= c, r <= z3.Q(c*c, 1)/z3.Q(b[0].numerator, b[0].denominator)) for c in (1, 2, 3)]
        for u, e in C.ratios:
            if e.eq(d):
                mu = z3.If(u >= 0, u, -u)
                f += [z3.Implies(m >= mu, r >= _RAT(u, d)), z3.Implies(mu >= m, _RAT(u, d) >= r)]
        C.ratios.append((z, d))
        C.add(z3.And(f), keep=r)
    return _RAT(z, d)


def opaque_square(z):
    """the square of a real as a function of which only these facts are used:
    it is not negative, and equal or larger magnitudes have equal or larger
    squares (instances for the squares of this path; each holds for x*x)"""
    z = z3.simplify(z)
    for u, _, q in C.squares:
        if u.eq(z):
            return q
    q, m = _SQ(z), z3.If(z >= 0, z, -z)
    f = [q >= 0]+[z3.Implies(m <= c, q <= c*c) for c in (1, 2, 3)]
    for _, mu, qu in C.squares:
        f += [z3.Implies(m >= mu, q >= qu), z3.Implies(mu >= m, qu >= q)]
    C.squares.append((z, m, q))
    C.add(z3.And(f), keep=q)
    return q


def sdiv(a, b):
    if isnanc(a) or isnanc(b):
        return math.nan
    zb = zreal(b)
    if is_sym(b):
        if C.branch(zb == 0):
            raise ZeroDivisionError('division by zero')
        if C.squares is not None and isinstance(a, SReal) and a.z.num_args() == 1 and a.z.decl().eq(_SQ):
            q = opaque_ratio(a.z, zb)
            if q is not None:
                return SReal(q, nor(nanof(a), nanof(b)))
    elif b == 0:
        raise ZeroDivisionError('division by zero')
    return mkreal(zreal(a)/zb, nor(nanof(a), nanof(b)))


def _zfloordiv_int(za, zb):
    zb_ = z3.simplify(zb)
    if z3.is_int_value(zb_):
        v = zb_.as_long()
        if v > 0:
            return za / zb_
        return (-za) / z3.IntVal(-v)
    # python floor division for any sign
    return z3.If(zb > 0, za / zb, (-za) / (-zb))


def sfloordiv(a, b):
    if _isreal(a) or _isreal(b):
        if isnanc(a) or isnanc(b):
            return math.nan
        if is_sym(b):
            if C.branch(zreal(b) == 0):
                raise ZeroDivisionError('float floor division by zero')
        elif b == 0:
            raise ZeroDivisionError('float floor division by zero')
        return mkreal(z3.ToReal(zfloor(zreal(a)/zreal(b))), nor(nanof(a), nanof(b)))
    zb = zint(b)
    if is_sym(b):
        if C.branch(zb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return mkint(_zfloordiv_int(zint(a), zb))


def smod(a, b):
    if _isreal(a) or _isreal(b):
        q = sfloordiv(a, b)
        return ssub(a, smul(b, q))
    zb = zint(b)
    if is_sym(b):
        if C.branch(zb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    zb_ = z3.simplify(zb)
    if z3.is_int_value(zb_) and zb_.as_long() > 0:
        return mkint(zint(a) % zb_)
    za = zint(a)
    return mkint(za - zb*_zfloordiv_int(za, zb))


FORKS = {} if __import__('os').environ.get('VC_FORKS') else None


def spow(a, b):
    if is_sym(b):
        if isinstance(b, SInt):
            if not is_sym(a) and C.check(z3.Or(b.z < 0, b.z > 15)) == 'unsat':
                r = spow(a, 15)
                for n in range(14, -1, -1):
                    r = merge_val(b.z == n, spow(a, n), r)
                return r
            n = C.concretize(b)
            return spow(a, n)
        raise Unsupported('symbolic exponent')
    if isinstance(b, (float, np.floating)) and float(b) != int(b):
        if b == 0.5:
            return s_sqrt(a)
        return ufun('pow_%r' % float(b), a)
    n = int(b)
    if not is_sym(a):
        return a**b
    if n == 0:
        return 1
    r = a
    for _ in range(abs(n)-1):
        r = smul(r, a)
    if n < 0:
        return sdiv(1, r)
    if isinstance(b, (float, np.floating)) and not _isreal(r):
        r = mkreal(zreal(r))
    return r


def _cmp(op, a, b):
    if isnanc(a) or isnanc(b):
        return op == '!='
    for v, o, sgn in ((a, b, 1), (b, a, -1)):
        if isinstance(v, (float, np.floating)) and math.isinf(v):
            # comparison of a finite symbolic real with an infinity
            big = (v > 0)
            lt = (not big) if sgn == 1 else big      # a < b ?
            res = {'<': lt, '<=': lt, '>': not lt, '>=': not lt, '==': False, '!=': True}[op]
            n = nanof(o)
            if n is None:
                return res
            return mkbool(z3.And(z3.Not(n), z3.BoolVal(res))) if op != '!=' else True
    if _isreal(a) or _isreal(b):
        za, zb = zreal(a), zreal(b)
    else:
        za, zb = zint(a), zint(b)
    z = {'<': lambda: za < zb, '<=': lambda: za <= zb, '>': lambda: za > zb,
         '>=': lambda: za >= zb, '==': lambda: za == zb, '!=': lambda: za != zb}[op]()
    n = nor(nanof(a), nanof(b))
    if n is not None:
        z = z3.Or(n, z) if op == '!=' else z3.And(z3.Not(n), z)
    return mkbool(z)


def _ok(o):
    return is_num(o) or isinstance(o, (SBase, Fraction))


def _bin(f, refl=False):
    def g(self, o):
        if _arr(o):
            return elementwise((lambda x, y: f(y, x)) if False else f, *((o, self) if refl else (self, o)))
        if not _ok(o):
            return NotImplemented
        return f(o, self) if refl else f(self, o)
    return g


def _cmpm(op):
    def g(self, o):
        if _arr(o):
            return elementwise(lambda x, y: _cmp(op, x, y), self, o)
        if not _ok(o):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        return _cmp(op, self, o)
    return g


def s_and(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.And(zbool(a), zbool(b)))
    for x, m in ((a, b), (b, a)):
        if isinstance(m, (int, np.integer)) and not isinstance(m, bool):
            m = int(m)
            if m == 0:
                return 0
            if m == -1:
                return x
            if m < 0:
                # x & m == x - (x & ~m)
                return ssub(x, s_and(x, ~m))
            if isinstance(x, SInt) and x.bits is not None:
                nb = len(x.bits)
                bl = [x.bits[nb-1-k] if (k < nb and (m >> k) & 1) else False for k in range(m.bit_length())]
                return frombits(bl[::-1])
            zx = zint(x)
            tot = None
            k = 0
            while m >> k:
                if (m >> k) & 1:
                    lo = k
                    while (m >> k) & 1:
                        k += 1
                    ln = k-lo
                    t = (zx / z3.IntVal(1 << lo)) if lo else zx
                    t = (t % z3.IntVal(1 << ln))
                    if lo:
                        t = t*z3.IntVal(1 << lo)
                    tot = t if tot is None else tot+t
                else:
                    k += 1
            return mkint(tot)
    ba, bb = bitsof(a), bitsof(b)
    n = max(len(ba), len(bb))
    ba = [False]*(n-len(ba))+ba
    bb = [False]*(n-len(bb))+bb
    return frombits([_band(x, y) for x, y in zip(ba, bb)])


def _band(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return z3.And(x, y)


def _bor(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return z3.Or(x, y)


def _bxor(x, y):
    if x is False:
        return y
    if y is False:
        return x
    if x is True:
        return (not y) if isinstance(y, bool) else z3.Not(y)
    if y is True:
        return z3.Not(x)
    return z3.Xor(x, y)


def bitsof(x):
    if isinstance(x, SInt):
        if x.bits is not None:
            return list(x.bits)
        raise Unsupported('bitwise operation on an integer of unknown width')
    if isinstance(x, SBool):
        return [x.z]
    x = int(x)
    if x < 0:
        raise Unsupported('bitwise with negative')
    return [bool((x >> k) & 1) for k in range(x.bit_length())][::-1]


def frombits(bl):
    """integer from bit list (most significant first)"""
    while bl and bl[0] is False:
        bl = bl[1:]
    if not bl:
        return 0
    n = len(bl)
    if all(isinstance(b, bool) for b in bl):
        return sum(1 << (n-1-k) for k, b in enumerate(bl) if b)
    terms = []
    for k, b in enumerate(bl):
        w = 1 << (n-1-k)
        if b is False:
            continue
        if b is True:
            terms.append(z3.IntVal(w))
        else:
            terms.append(z3.If(b, z3.IntVal(w), z3.IntVal(0)))
    return SInt(z3.Sum(terms) if len(terms) > 1 else terms[0], bits=bl)


def s_or(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.Or(zbool(a), zbool(b)))
    if (isinstance(a, SInt) and a.bits is not None or not isinstance(a, SInt)) and \
       (isinstance(b, SInt) and b.bits is not None or not isinstance(b, SInt)) and \
       not any(isinstance(v, int) and v < 0 for v in (a, b)):
        ba, bb = bitsof(a), bitsof(b)
        n = max(len(ba), len(bb))
        ba = [False]*(n-len(ba))+ba
        bb = [False]*(n-len(bb))+bb
        if all(x is False or y is False for x, y in zip(ba, bb)):
            bl = [y if x is False else x for x, y in zip(ba, bb)]
            r = sadd(a, b)
            return SInt(r.z, bits=bl) if isinstance(r, SInt) else frombits(bl)
        return frombits([_bor(x, y) for x, y in zip(ba, bb)])
    return ssub(sadd(a, b), s_and(a, b))


def s_xor(a, b):
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.Xor(zbool(a), zbool(b)))
    if (isinstance(a, SInt) and a.bits is not None or not isinstance(a, SInt)) and \
       (isinstance(b, SInt) and b.bits is not None or not isinstance(b, SInt)) and \
       not any(isinstance(v, int) and v < 0 for v in (a, b)):
        ba, bb = bitsof(a), bitsof(b)
        n = max(len(ba), len(bb))
        ba = [False]*(n-len(ba))+ba
        bb = [False]*(n-len(bb))+bb
        return frombits([_bxor(x, y) for x, y in zip(ba, bb)])
    return ssub(sadd(a, b), smul(2, s_and(a, b)))


def s_lshift(a, b):
    if is_sym(b):
        b = C.concretize(b)
    b = int(b)
    if isinstance(a, SInt) and a.bits is not None:
        return SInt(a.z*(1 << b) if b else a.z, bits=list(a.bits)+[False]*b)
    return smul(a, 1 << b)


def s_rshift(a, b):
    if is_sym(b):
        b = C.concretize(b)
    b = int(b)
    if b == 0:
        return a
    if isinstance(a, SInt) and a.bits is not None:
        return frombits(list(a.bits)[:len(a.bits)-b] if b < len(a.bits) else [])
    return sfloordiv(a, 1 << b)


class SInt(SBase):
    __slots__ = ('z', 'bits')

    def __init__(self, z, bits=None):
        self.z = z
        self.bits = bits

    def __repr__(self):
        return 'SInt(%s)' % str(self.z)[:60].replace('\n', ' ')

    def __bool__(self):
        return C.branch(self.z != 0)

    def __index__(self):
        return C.concretize(self)

    def __int__(self):
        return C.concretize(self)

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return mkint(-self.z-1)

    def __round__(self, n=None):
        return self

    @property
    def value(self):
        return self

    @property
    def name(self):
        return 'sym'

    def astype(self, t):
        return self if t in (int, np.int64, np.int32) else mkreal(zreal(self))

    real = property(lambda s: s)


class SBool(SBase):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SBool(%s)' % str(self.z)[:60].replace('\n', ' ')

    def __bool__(self):
        return C.branch(self.z)

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __neg__(self):
        return mkint(-zint(self))

    def __index__(self):
        return int(C.branch(self.z))

    __int__ = __index__


class SReal(SBase):
    __slots__ = ('z', 'nan')

    def __init__(self, z, nan=None):
        self.z = z
        self.nan = nan

    def __repr__(self):
        return 'SReal(%s%s)' % (str(self.z)[:60].replace('\n', ' '), '' if self.nan is None else ',nan?')

    def __bool__(self):
        return C.branch(zbool(self))

    def __neg__(self):
        return SReal(-self.z, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.z >= 0, self.z, -self.z), self.nan)

    def __round__(self, n=None):
        return s_round(self, n)

    def __int__(self):
        raise Unsupported('native int() of a symbolic real')

    def __float__(self):
        raise Unsupported('native float() of a symbolic real')

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def sqrt(self):
        return s_sqrt(self)

    def conjugate(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self


for _n, _f in (('add', sadd), ('sub', ssub), ('mul', smul), ('truediv', sdiv),
               ('floordiv', sfloordiv), ('mod', smod), ('pow', spow),
               ('and', s_and), ('or', s_or), ('xor', s_xor),
               ('lshift', s_lshift), ('rshift', s_rshift)):
    for _c in (SInt, SReal, SBool):
        setattr(_c, '__%s__' % _n, _bin(_f))
        setattr(_c, '__r%s__' % _n, _bin(_f, True))
for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
    for _c in (SInt, SReal, SBool):
        setattr(_c, '__%s__' % _n, _cmpm(_o))
for _c in (SInt, SReal, SBool):
    _c.__hash__ = lambda self: id(self)


# ------------------------------------------------- real <-> int conversions
def _linform(z, q, acc):
    """z as a rational combination of integer terms; False if it is not one"""
    if z3.is_rational_value(z):
        acc[None] = acc.get(None, 0) + q*z.as_fraction()
        return True
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        t = z.arg(0)
        e = acc.setdefault(t.get_id(), [t, Fraction(0)])
        e[1] += q
        return True
    if k == z3.Z3_OP_ADD:
        return all(_linform(c, q, acc) for c in z.children())
    if k == z3.Z3_OP_SUB:
        cs = z.children()
        return _linform(cs[0], q, acc) and all(_linform(c, -q, acc) for c in cs[1:])
    if k == z3.Z3_OP_UMINUS:
        return _linform(z.arg(0), -q, acc)
    if k == z3.Z3_OP_MUL:
        rest = []
        for c in z.children():
            if z3.is_rational_value(c):
                q = q*c.as_fraction()
            else:
                rest.append(c)
        if not rest:
            acc[None] = acc.get(None, 0) + q
            return True
        return len(rest) == 1 and _linform(rest[0], q, acc)
    if k == z3.Z3_OP_DIV and z3.is_rational_value(z.arg(1)) and z.arg(1).as_fraction() != 0:
        return _linform(z.arg(0), q/z.arg(1).as_fraction(), acc)
    return False


def zfloor(z):
    """floor of a real term; integer division when it is a ratio of integers"""
    acc = {}
    if _linform(z, Fraction(1), acc):
        c0 = acc.pop(None, Fraction(0))
        den = c0.denominator
        for t, q in acc.values():
            den = den*q.denominator//math.gcd(den, q.denominator)
        num = z3.IntVal(int(c0*den))
        for t, q in acc.values():
            n = int(q*den)
            if n:
                num = num + (t if n == 1 else n*t)
        num = z3.simplify(num)
        return num if den == 1 else num/den
    return z3.ToInt(z)


def s_floor(x):
    if isinstance(x, SReal):
        if x.nan is not None and C.branch(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return mkint(zfloor(x.z))
    if isinstance(x, (SInt, SBool)):
        return x
    if isinstance(x, Fraction):
        return x.numerator//x.denominator
    return math.floor(x)


def s_ceil(x):
    if is_sym(x):
        v = s_floor(-x)
        return -v
    return math.ceil(x)


def s_trunc(x):
    if isinstance(x, SReal):
        if x.nan is not None and C.branch(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return mkint(z3.If(x.z >= 0, zfloor(x.z), -zfloor(-x.z)))
    if isinstance(x, SBool):
        return mkint(zint(x))
    if isinstance(x, SInt):
        return x
    return int(x)


def s_round(x, n=None):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        if n:
            raise Unsupported('round(x, n)')
        f = zfloor(x.z + z3.Q(1, 2))
        tie = z3.And(z3.ToReal(f) == x.z + z3.Q(1, 2), f % 2 == 1)
        if x.nan is not None and C.branch(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return mkint(z3.If(tie, f-1, f))
    return round(x) if n is None else round(x, n)


# -------------------------------------------------- uninterpreted functions
def ufun(name, *args):
    """uninterpreted real function (transcendentals, hashes, ...)"""
    if all(not is_sym(a) for a in args):
        raise Unsupported('ufun on concrete')
    f = z3.Function(name, *([z3.RealSort()]*(len(args)+1)))
    nan = None
    for a in args:
        nan = nor(nan, nanof(a))
    return SReal(f(*[zreal(a) for a in args]), nan)


_ALG = {}


def s_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    if C.ringnorm:
        q = ring.root(zreal(x), C.bounds)
        if q is not None:
            return SReal(q)
    r = ufun('sqrt', x)
    key = ('sqrt', r.z.get_id())
    if key not in C.axioms:
        C.axioms.add(key)
        C.add(z3.Implies(zreal(x) >= 0, z3.And(r.z >= 0, r.z*r.z == zreal(x))), keep=r.z)
    return r


def s_sin(x):
    if not is_sym(x):
        return math.sin(x)
    _trig_ax(x)
    return ufun('sin', x)


def s_cos(x):
    if not is_sym(x):
        return math.cos(x)
    _trig_ax(x)
    return ufun('cos', x)


def _trig_ax(x):
    s, c = ufun('sin', x), ufun('cos', x)
    key = ('trig', s.z.get_id())
    if key in C.axioms:
        return
    C.axioms.add(key)
    C.add(s.z*s.z + c.z*c.z == 1, keep=s.z)
    C.add(z3.And(s.z <= 1, s.z >= -1, c.z <= 1, c.z >= -1))


# ------------------------------------------------------------------ context
class Path:
    """decision prefix of one path"""
    __slots__ = ('dec',)

    def __init__(self, dec=()):
        self.dec = list(dec)


class Ctx:
    def __init__(self):
        self.reset_all()

    def reset_all(self, branch_timeout=3000, ob_timeout=20000, max_paths=4000, deadline=None):
        self.branch_timeout = branch_timeout
        self.ob_timeout = ob_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.work = [[]]
        self.npaths = 0
        self.nforks = 0
        self.t_solver = 0.0
        self.nqueries = 0
        self.begin([])
        self.active = False

    # ----- one path
    ringnorm = False
    squares = None

    def begin(self, dec):
        self.ringnorm = False
        self.squares, self.ratios = None, []
        self.line = 0
        self.hi = {}
        self.bounds = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.prefix = list(dec)
        self.given = len(dec)       # decisions replayed from the path this one branches off
        self.pos = 0
        self.pc = []
        self.defs = []            # definitions of wide fields by their bits
        self.axioms = set()
        self.keepalive = []
        self.fresh_n = {}
        self.merge_depth = 0
        self.assume_stack = []
        self.pending = []
        self.inputs = {}
        self.memo = {}
        self.active = True

    def fresh(self, name):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n+1
        return name if n == 0 else '%s!%d' % (name, n)

    def add(self, z, keep=None):
        """add a fact (an axiom instance, valid in every branch)"""
        if keep is not None:
            self.keepalive.append(keep)
        self.pc.append(z)
        self.solver.add(z)
        if self.merge_depth:
            self.pending.append(z)

    def add_def(self, z):
        """a definition that most queries do not need: only the final attempt
        at an obligation sees it"""
        self.defs.append(z)

    def push(self, z):
        self.solver.push()
        self.solver.add(z)
        self.assume_stack.append(z)
        self.merge_depth += 1

    def pop(self):
        self.solver.pop()
        self.assume_stack.pop()
        self.merge_depth -= 1
        for a in self.pending:
            self.solver.add(a)
        if not self.merge_depth:
            self.pending = []

    def assume(self, z):
        """narrow the current path"""
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        if self.merge_depth:
            raise NeedFork('assume inside merge')
        self.pc.append(z)
        self.solver.add(z)
        if z3.is_false(z) or not self.replaying() and self.check() == 'unsat':
            raise PathEnd('infeasible')

    def replaying(self):
        """before the decision in which this path differs from the one it
        branches off: the same conditions hold as when that path was here"""
        return self.pos < self.given and not self.merge_depth

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        t = time.time()
        r = self.solver.check(*extra)
        self.t_solver += time.time()-t
        self.nqueries += 1
        return str(r)

    def decided(self, z):
        """True/False if the path condition decides z, else None"""
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return None

    def branch(self, z):
        if not isinstance(z, z3.ExprRef):
            return bool(z)
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if not self.active:
            raise Unsupported('symbolic branch outside a path')
        if self.merge_depth:
            # inside a merged branch: only follow decided conditions
            if self.check(z3.Not(z)) == 'unsat':
                return True
            if self.check(z) == 'unsat':
                return False
            raise NeedFork('branch inside merge')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d in ('T', 'F'):           # forced
                return d == 'T'
            self._take(z, d)
            return d
        rt = self.check(z)
        if rt == 'unsat':
            self.prefix.append('F')
            self.pos += 1
            return False
        rf = self.check(z3.Not(z))
        if rf == 'unsat':
            self.prefix.append('T')
            self.pos += 1
            return True
        self.nforks += 1
        if FORKS is not None:
            FORKS[self.line] = FORKS.get(self.line, 0)+1
        self.work.append(self.prefix[:self.pos]+[False])
        if len(self.work) + self.npaths > self.max_paths:
            raise Budget('more than %d paths' % self.max_paths)
        self.prefix.append(True)
        self.pos += 1
        self._take(z, True)
        return True

    def _take(self, z, d):
        c = z if d else z3.Not(z)
        self.pc.append(c)
        self.solver.add(c)

    def concretize(self, x, limit=700):
        """enumerate the feasible values of a symbolic integer by forking"""
        if not is_sym(x):
            return int(x)
        if isinstance(x, SBool):
            return int(self.branch(x.z))
        z = z3.simplify(x.z)
        if z3.is_int_value(z):
            return z.as_long()
        if self.merge_depth:
            if self.check() != 'sat':
                raise NeedFork('concretize in merge')
            v = self.solver.model().eval(z, model_completion=True).as_long()
            if self.check(z != v) == 'unsat':
                return v
            raise NeedFork('concretize inside merge')
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Unsupported('integer has more than %d feasible values' % limit)
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                # recorded as ('v', value, taken)
                if not (isinstance(d, tuple) and d[0] == 'v'):
                    raise RuntimeError('replay divergence')
                self.pos += 1
                if d[2]:
                    self._take(z == d[1], True)
                    return d[1]
                self._take(z == d[1], False)
                continue
            r = self.check()
            if r == 'unsat':
                raise PathEnd('infeasible')
            if r != 'sat':
                raise Unsupported('cannot enumerate an index')
            v = self.solver.model().eval(z, model_completion=True).as_long()
            if self.check(z != v) != 'unsat':
                self.nforks += 1
                if FORKS is not None:
                    FORKS[-self.line] = FORKS.get(-self.line, 0)+1
                self.work.append(self.prefix[:self.pos]+[('v', v, False)])
                if len(self.work) + self.npaths > self.max_paths:
                    raise Budget('more than %d paths' % self.max_paths)
            self.prefix.append(('v', v, True))
            self.pos += 1
            self._take(z == v, True)
            return v

    def model_str(self, m):
        return ', '.join('%s=%s' % (d, m[d]) for d in m.decls()[:60])


C = Ctx()


def ite(c, a, b):
    """value-level if-then-else; raises NeedFork when not mergeable"""
    if c is True or (isinstance(c, np.bool_) and c):
        return a
    if c is False or isinstance(c, np.bool_):
        return b
    cz = zbool(c)
    return merge_val(cz, a, b)


def merge_val(cz, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(cz, x, y) for x, y in zip(a, b))
    if _ok(a) and _ok(b):
        if not is_sym(a) and not is_sym(b):
            if type(a) is type(b) and (a == b or (a != a and b != b)):
                return a
        if isinstance(a, (bool, SBool, np.bool_)) and isinstance(b, (bool, SBool, np.bool_)):
            return mkbool(z3.If(cz, zbool(a), zbool(b)))
        if _isreal(a) or _isreal(b):
            na, nb = nanof(a), nanof(b)
            nan = None
            if na is not None or nb is not None:
                nan = z3.If(cz, na if na is not None else z3.BoolVal(False),
                            nb if nb is not None else z3.BoolVal(False))
            za = z3.RealVal(0) if isnanc(a) else zreal(a)
            zb = z3.RealVal(0) if isnanc(b) else zreal(b)
            return mkreal(z3.If(cz, za, zb), nan)
        return mkint(z3.If(cz, zint(a), zint(b)))
    if type(a) is type(b) and not isinstance(a, (list, dict, set, np.ndarray, bytearray)):
        try:
            if a == b:
                return a
        except Exception:
            pass
    raise NeedFork('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))
