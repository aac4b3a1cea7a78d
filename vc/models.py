"""Library models: the assumed contracts on Python built-ins, numpy, math and
bitstruct used by the verified functions."""
import builtins
import copy
import math
import operator
import struct
import numpy as np
import z3
import bitstruct
try:
    import bitstruct.c as bsc
except Exception:                                       # pragma: no cover
    bsc = bitstruct
from . import sym
from .sym import (C, SBase, SInt, SReal, SBool, Unsupported, NeedFork, is_sym, zbool, zint, zreal,
                  mkbool, mkint, mkreal, s_floor, s_ceil, s_trunc, s_round, s_sqrt, s_sin, s_cos,
                  ufun, merge_val, nanof, bitsof, frombits)
from .interp import (SymText, model, MODELS, METHODS, VArr, mkarr, lift_arr, denorm, has_sym, SymRange, dot,
                     matmul, Closure, J, coerce, SuperProxy, Interp)


# ------------------------------------------------------------------ buffers
class SymBuf:
    """message buffer: bit k is an uninterpreted Boolean bit(k) unless it has
    been written through the bit packing interface"""
    v_symbolic = True

    def __init__(self, name, nbits=None):
        self.name = name
        self.nbits = nbits
        self.writes = []          # (off, width, SInt/ int value >= 0)
        self.bit = z3.Function('bit_'+name, z3.IntSort(), z3.BoolSort())
        self.zero = False
        C.memo.setdefault('bufs', []).append(self)

    # journal protocol
    def _vsnap(self):
        return list(self.writes)

    def _vrestore(self, s):
        self.writes = list(s)

    def _vmerge(self, cz, a, b):
        if len(a) == len(b):
            out = []
            for x, y in zip(a, b):
                if x[:2] != y[:2]:
                    raise NeedFork('writes')
                out.append((x[0], x[1], merge_val(cz, x[2], y[2])))
            return out
        raise NeedFork('writes')

    def raw_bit(self, k):
        if isinstance(k, int):
            return self.bit(z3.IntVal(k)) if not self.zero else False
        return self.bit(z3.simplify(zint(k))) if not self.zero else False

    def get_bit(self, k):
        """bit k (int or SInt) as z3 Bool / bool"""
        if not self.writes:
            return self.raw_bit(k)
        und = []
        for off, w, v in reversed(self.writes):
            dk = cdiff(k, off)
            if dk is not None:
                if not 0 <= dk < w:
                    continue
                r = tobits(v, w)[dk]
                break
            inside = sand(off <= k, k < off+w)
            d = decide(inside)
            if d is False:
                continue
            vb = tobits(v, w)
            j = k-off
            if is_sym(j):
                j = mkint(z3.simplify(zint(j)))
            if not is_sym(j):
                bz = vb[int(j)]
            else:
                bz = run_of(vb, j)
                if bz is None:
                    bz = z3.Or([z3.And(zint(j) == t, vb[t] if isinstance(vb[t], z3.ExprRef) else z3.BoolVal(bool(vb[t]))) for t in range(w)])
            if d is True:
                r = bz
                break
            und.append((zbool(inside), bz))
        else:
            r = self.raw_bit(k)
        for c, bz in reversed(und):
            r = z3.If(c, bz if isinstance(bz, z3.ExprRef) else z3.BoolVal(bool(bz)), r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r)))
        return r

    def bit_run(self, off, w):
        """the bits off .. off+w-1"""
        if isinstance(self, (SymView, SymCat)):
            return [self.get_bit(off+k) for k in range(w)]
        ws = []
        for o, ww, x in self.writes:
            dk = cdiff(off, o)
            if dk is None:
                return [self.get_bit(off+k) for k in range(w)]
            if dk < ww and dk+w > 0:
                ws.append((dk, ww, x))
        out = None
        if self.zero:
            out = [False]*w
        elif not is_sym(off):
            out = [self.bit(z3.IntVal(int(off)+k)) for k in range(w)]
        else:
            z = z3.simplify(zint(off))
            c, rest = 0, [z]
            if z3.is_add(z):
                a = z.children()
                if z3.is_int_value(a[0]):
                    c, rest = a[0].as_long(), a[1:]
                else:
                    rest = a
            out = []
            for k in range(w):
                if c+k == 0:
                    t = rest[0] if len(rest) == 1 else z3.Sum(rest)
                else:
                    t = z3.Sum([z3.IntVal(c+k)]+rest)
                out.append(self.bit(t))
        for dk, ww, x in ws:
            vb = tobits(x, ww)
            for k in range(max(0, -dk), min(w, ww-dk)):
                out[k] = vb[dk+k]
        return out

    def read(self, off, w, signed=False):
        if w == 0:
            return 0
        v = None
        for o, ww, x in reversed(self.writes):
            dk = cdiff(off, o)
            if dk is not None:
                if dk == 0 and ww == w:
                    v = x
                    break
                if dk >= ww or dk+w <= 0:
                    continue
                break
            if ww == w and decide(off == o):
                v = x
                break
            if not (decide(sor(o+ww <= off, off+w <= o)) is True):
                break
        else:
            v = None
        if v is None:
            key = ('rd', self.name, z3.simplify(zint(off)).sexpr() if is_sym(off) else int(off), w, len(self.writes))
            hit = C.memo.get(key)
            if hit is None:
                bl = self.bit_run(off, w)
                # the same bits are the same number, whichever buffer they are read from
                bk = ('bits',)+tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in bl)
                hit = C.memo.get(bk)
                if hit is None:
                    hit = C.memo[bk] = frombits(list(bl))
                    fresh = True
                else:
                    fresh = False
                if isinstance(hit, SInt) and fresh:
                    # name the field so that terms stay small
                    n = z3.Int('%s@%s:%d' % (self.name, key[2], w) if len(str(key[2])) < 40 else C.fresh(self.name+'@f'))
                    (C.add if w <= 8 else C.add_def)(n == hit.z)
                    C.add(z3.And(n >= 0, n < (1 << w)))
                    pad = [False]*(w-len(hit.bits)) + list(hit.bits)
                    hit = C.memo[bk] = SInt(n, bits=pad)
                    C.keepalive.append(bl)
                C.memo[key] = hit
            v = hit
        if signed:
            v = to_signed(v, w)
        return v

    def write(self, off, w, v):
        self.writes.append((off, w, v))

    def __len__(self):
        if self.nbits is None:
            raise Unsupported('length of a message buffer')
        return (self.nbits+7)//8

    def v_getitem(self, interp, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            lo = 0 if i.start is None else i.start
            hi = i.stop
            if hi is None:
                hi = len(self)
            lo, hi = interp.cidx(lo), interp.cidx(hi)
            if self.nbits is not None:
                lo, hi, _ = slice(lo, hi).indices(len(self))
            n = max(0, hi-lo)
            return SymView(self, lo*8, n*8)
        if is_sym(i):
            return self.read(i*8, 8)
        if i < 0:
            i += len(self)
        return self.read(i*8, 8)

    def v_setitem(self, interp, i, v):
        if isinstance(i, slice):
            lo = interp.cidx(0 if i.start is None else i.start)
            hi = interp.cidx(i.stop)
            vals = list(v.sym_iter()) if hasattr(v, 'sym_iter') else list(v)
            if len(vals) != hi-lo:
                raise Unsupported('resizing slice store')
            for k, x in enumerate(vals):
                self.write((lo+k)*8, 8, x)
            return
        if is_sym(i):
            i = C.concretize(i)
        self.write(i*8, 8, v)

    def sym_iter(self):
        return [self.read(k*8, 8) for k in range(len(self))]

    # byte string algebra
    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, st = i.indices(len(self))
            return SymView(self, lo*8, max(0, hi-lo)*8)
        return self.read((int(i)+len(self) if i < 0 else int(i))*8, 8)

    def __iter__(self):
        return iter(self.sym_iter())

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return catbytes(self, o)

    def __radd__(self, o):
        return catbytes(o, self)

    def __iadd__(self, o):
        return catbytes(self, o)

    def __eq__(self, o):
        return eqbytes(self, o)

    def __ne__(self, o):
        r = eqbytes(self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(zbool(r)))

    def decode(self, *a):
        v = [self.read(k*8, 8) for k in range(len(self))]
        if any(is_sym(x) for x in v):
            raise Unsupported('text of a symbolic buffer')
        return bytes(int(x) for x in v).decode(*a)


def bytelist(x):
    return x.sym_iter() if isinstance(x, SymBuf) else list(x)


def frombytes(v):
    n = SymBuf(C.fresh('bs'), 8*len(v))
    n.zero = True
    n.writes = [(8*k, 8, x) for k, x in enumerate(v)]
    return n


def catbytes(a, b):
    for x in (a, b):
        if not isinstance(x, (SymBuf, bytes, bytearray)):
            raise TypeError("can't concat %s to bytes" % type(x).__name__)
    return SymCat([p for x in (a, b) for p in (x.parts if isinstance(x, SymCat) and not x.writes else [snapshot(x)])])


def snapshot(x):
    return SymView(x, 0, x.nbits if x.nbits is not None else 8*len(x)) if isinstance(x, SymBuf) else bytes(x)


def bytekeys(x):
    """one key per byte; bytes with the same key are the same"""
    if not isinstance(x, SymBuf):
        return list(x)
    return keys_of(x, x.writes, 0, len(x))


def keys_of(x, writes, off, n):
    if is_sym(off):
        return [('s', id(x), z3.simplify(zint(off)).sexpr(), k, tuple(id(w) for w in writes)) for k in range(n)]
    if not writes and isinstance(x, SymView):
        return keys_of(x.base, x._bw, x.off+off, n)
    if not writes and isinstance(x, SymCat) and off % 8 == 0:
        return x.keys()[off//8:off//8+n]
    out = []
    sw = [w for w in writes if is_sym(w[0])]
    for k in range(n):
        o = off+8*k
        ws = [w for w in writes if is_sym(w[0]) or w[0] < o+8 and o < w[0]+w[1]]
        if not sw and ws and ws[-1][:2] == (o, 8):
            v = ws[-1][2]
            if is_sym(v) and getattr(v, 'bits', None) is not None:
                out.append((id(x), o, (id(ws[-1]),)))
            else:
                out.append(('z', v.z.sexpr()) if is_sym(v) else int(v))
        elif not ws and x.zero:
            out.append(0)
        else:
            out.append((id(x), o, tuple(id(w) for w in ws)))
    return out


def eqbytes(a, b):
    if a is b:
        return True
    for x in (a, b):
        if not isinstance(x, (SymBuf, bytes, bytearray)):
            return False
    if len(a) != len(b):
        return False
    r = []
    for k, (p, q) in enumerate(zip(bytekeys(a), bytekeys(b))):
        if p == q:
            continue
        if isinstance(p, tuple) and len(p) == 3 and isinstance(q, tuple) and len(q) == 3:    # bytes nobody gave a value
            r.append(z3.And([a.get_bit(8*k+j) == b.get_bit(8*k+j) for j in range(8)]))
            continue
        c = byte_of(a, k) == byte_of(b, k)
        if isinstance(c, SBase):
            r.append(zbool(c))
        elif not c:
            return False
    return mkbool(z3.And(r)) if r else True


def byte_of(x, k):
    return x.read(8*k, 8) if isinstance(x, SymBuf) else x[k]


class SymView(SymBuf):
    """byte slice of a buffer (a copy at the time of slicing)"""

    def __init__(self, base, off, nbits):
        self.base, self.off = base, off
        self.nbits = nbits
        self.name = '%s+%s' % (base.name, off)
        self.writes = []
        self.zero = False
        self._bw = list(base.writes)

    def get_bit(self, k):
        if self.writes:
            return SymBuf.get_bit(self, k)
        return self.raw_bit(k)

    def raw_bit(self, k):
        cur = self.base.writes
        self.base.writes = self._bw
        try:
            return self.base.get_bit(self.off+k)
        finally:
            self.base.writes = cur

    def read(self, off, w, signed=False):
        if self.writes:
            return SymBuf.read(self, off, w, signed)
        cur = self.base.writes
        self.base.writes = self._bw
        try:
            return self.base.read(self.off+off, w, signed)
        finally:
            self.base.writes = cur


class SymCat(SymBuf):
    """concatenation of byte strings"""

    def __init__(self, parts):
        self.parts = parts
        self.nbits = sum(8*len(p) for p in parts)
        self.name = C.fresh('cat')
        self.writes = []
        self.zero = False
        self._k = None

    def keys(self):
        if self._k is None:
            self._k = [k for p in self.parts for k in bytekeys(p)]
        return self._k

    def part(self, off, w):
        for p in self.parts:
            n = 8*len(p)
            if 0 <= off and off+w <= n:
                return p, off
            off -= n
            if off < 0:
                break
        return None, None

    def raw_bit(self, k):
        if is_sym(k):
            k = C.concretize(k)
        p, o = self.part(k, 1)
        return p.get_bit(o) if isinstance(p, SymBuf) else bool(p[o//8] >> (7-o % 8) & 1)

    def get_bit(self, k):
        if not self.writes:
            return self.raw_bit(k)
        return SymBuf.get_bit(self, k)

    def read(self, off, w, signed=False):
        if not self.writes and w:
            if is_sym(off):
                off = C.concretize(off)
            p, o = self.part(off, w)
            if isinstance(p, SymBuf):
                return p.read(o, w, signed)
            if p is not None:
                v = bitstruct.unpack_from('u%d' % w, p, o)[0]
                return to_signed(v, w) if signed else v
        return SymBuf.read(self, off, w, signed)


def sand(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return mkbool(z3.And(zbool(a), zbool(b)))


def sor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    return mkbool(z3.Or(zbool(a), zbool(b)))


def run_of(vb, j):
    """bit j of consecutive bits of one buffer; None if vb is not that"""
    f = a0 = None
    for t, b in enumerate(vb):
        if not (isinstance(b, z3.ExprRef) and z3.is_app(b) and b.num_args() == 1 and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return None
        if t == 0:
            f, a0 = b.decl(), b.arg(0)
            continue
        if b.decl().get_id() != f.get_id():
            return None
        d = z3.simplify(b.arg(0)-a0)
        if not (z3.is_int_value(d) and d.as_long() == t):
            return None
    return None if f is None else f(z3.simplify(a0+zint(j)))


def upper(a):
    """an upper bound of a that its declared range gives at once"""
    if not is_sym(a):
        return int(a)
    z = z3.simplify(zint(a))
    if z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return C.hi.get(z.decl().name())
    if z3.is_add(z) and z.num_args() == 2 and z3.is_int_value(z.arg(0)):
        u = C.hi.get(z.arg(1).decl().name()) if z3.is_const(z.arg(1)) else None
        return None if u is None else u+z.arg(0).as_long()
    return None


def cdiff(a, b):
    """a-b when it is the same number on every path"""
    if not is_sym(a) and not is_sym(b):
        return int(a)-int(b)
    z = z3.simplify(zint(a)-zint(b))
    return z.as_long() if z3.is_int_value(z) else None


def decide(c):
    """True/False when the path condition settles c, None otherwise"""
    if not isinstance(c, SBase):
        return bool(c)
    z = z3.simplify(zbool(c))
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    if C.check(z3.Not(z)) == 'unsat':
        return True
    if C.check(z) == 'unsat':
        return False
    return None


def to_signed(v, w):
    if not is_sym(v):
        return v - (1 << w) if v >= (1 << (w-1)) else v
    half = 1 << (w-1)
    if isinstance(v, SInt) and v.bits is not None and len(v.bits) >= w and w > 8:
        t = v.bits[len(v.bits)-w]
        if isinstance(t, bool):
            return SInt(v.z - (1 << w)) if t else v
        return SInt(z3.If(t, v.z - (1 << w), v.z))
    return SInt(z3.If(v.z >= half, v.z - (1 << w), v.z))


def tobits(v, w):
    if isinstance(v, SInt) and v.bits is not None and len(v.bits) <= w:
        return [False]*(w-len(v.bits))+list(v.bits)
    if isinstance(v, SBool):
        return [False]*(w-1)+[v.z]
    if not is_sym(v):
        return [bool((int(v) >> (w-1-k)) & 1) for k in range(w)]
    key = ('tobits', v.z.get_id(), w)
    hit = C.memo.get(key)
    if hit is None:
        bl = [z3.Bool(C.fresh('tb')) for _ in range(w)]
        C.add(v.z == frombits(list(bl)).z, keep=v.z)
        hit = bl
        C.memo[key] = hit
    return hit


import re
_FMT = re.compile(r'([a-zA-Z])(\d+)')


_FMT_OK = set()


def parse_fmt(fmt):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format')
    rest = _FMT.sub('', fmt).strip()
    if rest not in ('', '>'):
        raise Unsupported('bit format %r' % fmt)
    if fmt not in _FMT_OK:
        bitstruct.calcsize(fmt)      # raises what the library raises
        _FMT_OK.add(fmt)
    return [(a, int(b)) for a, b in _FMT.findall(fmt)]


def _unpack(fmt, buf, off):
    out = []
    for t, w in parse_fmt(fmt):
        if buf.nbits is not None:
            end = off+w
            u = upper(end)
            ok = True if u is not None and u <= buf.nbits else end <= buf.nbits
            if not (ok if isinstance(ok, bool) else bool(ok)):
                raise bitstruct.Error('unpack requires more bits')
        if t == 'u':
            out.append(buf.read(off, w))
        elif t == 's':
            out.append(buf.read(off, w, True))
        elif t == 'b':
            out.append(mkbool(zbool(buf.read(off, w) != 0)))
        elif t == 'p':
            pass
        elif t == 'r':
            out.append(BitStr(buf, off, w))
        else:
            raise Unsupported('bit format %s' % t)
        off = off+w
    return tuple(out)


class BitStr(SymView):
    def __init__(self, buf, off, w):
        SymView.__init__(self, buf, off, w)


def is_buf(b):
    return isinstance(b, SymBuf)


@model(bitstruct.unpack_from, bsc.unpack_from)
def m_unpack_from(I, a, k):
    fmt, buf = a[0], a[1]
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    if not is_buf(buf):
        if is_sym(off):
            off = C.concretize(off)
        return bitstruct.unpack_from(fmt, bytes(buf), off)
    if not is_sym(off):
        off = int(off)
    return _unpack(fmt, buf, off)


@model(bitstruct.unpack_from_dict, bsc.unpack_from_dict)
def m_unpack_from_dict(I, a, k):
    fmt, names, buf = a[0], a[1], a[2]
    off = a[3] if len(a) > 3 else k.get('offset', 0)
    vals = m_unpack_from(I, (fmt, buf, off), {})
    return dict(zip(names, vals))


@model(bitstruct.unpack, bsc.unpack)
def m_unpack(I, a, k):
    return m_unpack_from(I, (a[0], a[1], 0), {})


@model(struct.pack_into)
def m_struct_pack_into(I, a, k):
    fmt, buf, off = a[:3]
    w = {'>L': 32, '>I': 32, '>H': 16, '>B': 8, 'B': 8}.get(fmt)
    if not isinstance(buf, SymBuf):
        return struct.pack_into(*a)
    if w is None:
        raise Unsupported('struct.pack_into %s' % fmt)
    return m_pack_into(I, ('u%d' % w, buf, off*8, a[3]), {})


@model(struct.unpack_from)
def m_struct_unpack_from(I, a, k):
    fmt, buf = a[:2]
    w = {'>L': 32, '>I': 32, '>H': 16, '>B': 8, 'B': 8}.get(fmt)
    if not isinstance(buf, SymBuf):
        return struct.unpack_from(*a, **k)
    if w is None:
        raise Unsupported('struct.unpack_from %s' % fmt)
    return m_unpack_from(I, ('u%d' % w, buf, (a[2] if len(a) > 2 else k.get('offset', 0))*8), {})


@model(bitstruct.pack_into, bsc.pack_into)
def m_pack_into(I, a, k):
    fmt, buf, off = a[0], a[1], a[2]
    vals = list(a[3:])
    if not is_buf(buf):
        if has_sym(vals):
            raise Unsupported('pack of symbolic values into native buffer')
        J.touch(buf)
        return bitstruct.pack_into(fmt, buf, int(off), *vals)
    J.touch(buf)
    for t, w in parse_fmt(fmt):
        if t == 'p':
            off = off+w
            continue
        v = vals.pop(0)
        if t == 'u':
            ok = sand(v >= 0, v < (1 << w))
            if not (ok if isinstance(ok, bool) else bool(ok)):
                raise bitstruct.Error('"u%d" requires 0 <= integer <= %d' % (w, (1 << w)-1))
            buf.write(off, w, v)
        elif t == 's':
            ok = sand(v >= -(1 << (w-1)), v < (1 << (w-1)))
            if not (ok if isinstance(ok, bool) else bool(ok)):
                raise bitstruct.Error('"s%d" out of range' % w)
            if is_sym(v):
                v = SInt(z3.If(v.z < 0, v.z + (1 << w), v.z))
            else:
                v = int(v) % (1 << w)
            buf.write(off, w, v)
        elif t == 'b':
            buf.write(off, w, v)
        elif t == 'r':
            if is_buf(v):
                for j in range(0, w, 8):
                    n = min(8, w-j)
                    buf.write(off+j, n, v.read(j, n))
            else:
                n = 0
                bb = bytes(v)
                for j in range(w):
                    n = (n << 1) | ((bb[j//8] >> (7-j % 8)) & 1)
                buf.write(off, w, n)
        else:
            raise Unsupported('pack format %s' % t)
        off = off+w
    return None


@model(bitstruct.pack, bsc.pack)
def m_pack(I, a, k):
    if not has_sym(a[1:]) and not any(is_buf(x) for x in a[1:]):
        return bitstruct.pack(*a)
    b = SymBuf(C.fresh('pk'), sum(w for t, w in parse_fmt(a[0])))
    b.zero = True
    m_pack_into(I, (a[0], b, 0)+tuple(a[1:]), {})
    return b


@model(bytearray)
def m_bytearray(I, a, k):
    if a and is_buf(a[0]):
        return SymView(a[0], 0, a[0].nbits)
    if a and isinstance(a[0], int) and C.memo.get('symbolic_bytearrays'):
        b = SymBuf(C.fresh('ba'), a[0]*8)
        b.zero = True
        return b
    if a and not isinstance(a[0], (list, tuple, bytes, bytearray, str)) and hasattr(a[0], '__next__'):
        a = (list(a[0]),)+tuple(a[1:])
    if a and isinstance(a[0], (list, tuple)) and has_sym(a[0]):
        for x in a[0]:
            ok = sand(x >= 0, x < 256)
            if not (ok if isinstance(ok, bool) else bool(ok)):
                raise ValueError('byte must be in range(0, 256)')
        return frombytes(list(a[0]))
    return bytearray(*[denorm(x) for x in a], **k)


@model(bytes)
def m_bytes(I, a, k):
    if a and is_buf(a[0]):
        return a[0]
    return bytes(*a, **k)


# ----------------------------------------------------------------- builtins
@model(int)
def m_int(I, a, k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SBase):
        return s_trunc(x)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return m_int(I, (x.ravel()[0],), {})
    if isinstance(x, SymText):
        raise Unsupported('number of the text of a symbolic value')
    return int(*a, **k)


@model(float, np.float64)
def m_float(I, a, k):
    x = a[0] if a else 0.0
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return SReal(zreal(x))
    if isinstance(x, SymText):
        raise Unsupported("number of the text of a symbolic value")
    return float(x)


@model(bool)
def m_bool(I, a, k):
    x = a[0] if a else False
    if isinstance(x, SBase):
        return mkbool(zbool(x))
    return bool(x)


@model(round)
def m_round(I, a, k):
    return s_round(a[0], a[1] if len(a) > 1 else k.get('ndigits'))


@model(np.round, np.around, np.rint)
def m_npround(I, a, k):
    if isinstance(a[0], np.ndarray):
        return emap(lambda v: coerce(s_round(v) if is_sym(v) else round(v), 'f'), a[0])
    if is_sym(a[0]):
        return SReal(zreal(s_round(a[0])))
    return np.round(*a, **k)


@model(range)
def m_range(I, a, k):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return range(*[int(x) for x in a])


@model(len)
def m_len(I, a, k):
    x = a[0]
    if hasattr(x, 'sym_len'):
        return x.sym_len
    return len(x)


@model(abs, np.abs, np.fabs, math.fabs)
def m_abs(I, a, k):
    if isinstance(a[0], np.ndarray):
        return emap(abs, a[0])
    return abs(a[0])


def _minmax(op, I, a, k):
    key = k.get('key')
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if 'default' in k:
            return k['default']
        raise ValueError('empty')
    if key is not None or not any(is_sym(x) for x in xs):
        if key is None:
            return (min if op == '<' else max)(xs)
        best, bk = xs[0], I.call(key, (xs[0],))
        for x in xs[1:]:
            kx = I.call(key, (x,))
            if I.truth(kx < bk if op == '<' else kx > bk):
                best, bk = x, kx
        return best
    r = xs[0]
    for x in xs[1:]:
        c = (x < r) if op == '<' else (x > r)
        r = merge_val(zbool(c), x, r) if isinstance(c, SBase) else (x if c else r)
    return r


@model(min)
def m_min(I, a, k):
    return _minmax('<', I, a, k)


@model(max)
def m_max(I, a, k):
    return _minmax('>', I, a, k)


@model(sum)
def m_sum(I, a, k):
    s = a[1] if len(a) > 1 else 0
    for x in a[0]:
        s = s+x
    return s


@model(any)
def m_any(I, a, k):
    zs = []
    for x in a[0]:
        if is_sym(x):
            zs.append(zbool(x))
        elif x:
            return True
    return mkbool(z3.Or(zs)) if zs else False


@model(all)
def m_all(I, a, k):
    zs = []
    for x in a[0]:
        if is_sym(x):
            zs.append(zbool(x))
        elif not x:
            return False
    return mkbool(z3.And(zs)) if zs else True


@model(isinstance)
def m_isinstance(I, a, k):
    x, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SInt):
        return any(q in (int, np.integer, object) for q in ts)
    if isinstance(x, SReal):
        return any(q in (float, np.floating, object) for q in ts)
    if isinstance(x, SBool):
        return any(q in (bool, int, object) for q in ts)
    if is_buf(x):
        return any(q in (bytes, bytearray) for q in ts)
    return isinstance(x, t)


@model(enumerate)
def m_enumerate(I, a, k):
    x = a[0]
    if hasattr(x, 'sym_iter'):
        x = x.sym_iter()
    return enumerate(x, *a[1:], **k)


@model(zip)
def m_zip(I, a, k):
    return zip(*[x.sym_iter() if hasattr(x, 'sym_iter') else x for x in a])


@model(list)
def m_list(I, a, k):
    if a and hasattr(a[0], 'sym_iter'):
        return list(a[0].sym_iter())
    if a and isinstance(a[0], SymRange):
        return list(range(C.concretize(a[0].lo), C.concretize(a[0].hi)))
    return list(*a)


@model(map)
def m_map(I, a, k):
    return [I.call(a[0], t) for t in zip(*a[1:])]


@model(sorted)
def m_sorted(I, a, k):
    key = k.get('key')
    if key is not None and not isinstance(key, type(len)):
        f = key
        k = dict(k)
        k['key'] = lambda x: I.call(f, (x,))
    return sorted(a[0], **k)


@model(print)
def m_print(I, a, k):
    return None


@model(str)
def m_str(I, a, k):
    if a and has_sym(a[0]):
        if isinstance(a[0], SInt):
            return str(C.concretize(a[0]))
        return SymText('<sym>')
    return str(*a)


@model(divmod)
def m_divmod(I, a, k):
    return (a[0]//a[1], a[0] % a[1])


@model(pow, math.pow, np.power)
def m_pow(I, a, k):
    return a[0]**a[1]


@model(getattr)
def m_getattr(I, a, k):
    if len(a) == 3:
        return getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


@model(setattr)
def m_setattr(I, a, k):
    J.touch(a[0])
    setattr(a[0], a[1], a[2])


@model(copy.copy)
def m_copy(I, a, k):
    x = a[0]
    if isinstance(x, SBase):
        return x
    if isinstance(x, SymBuf):
        y = copy.copy(x)
        y.writes = list(x.writes)
        return y
    if hasattr(x, 'v_copy'):
        return x.v_copy()
    if type(x).__module__.startswith('cssrlib'):
        y = type(x).__new__(type(x))
        y.__dict__.update(x.__dict__)
        return y
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(I, a, k):
    return deep(a[0], {})


def deep(x, memo):
    if isinstance(x, SBase) or x is None or isinstance(x, (int, float, str, bytes, type)):
        return x
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, np.ndarray):
        y = x.copy()
    elif isinstance(x, list):
        y = []
        memo[id(x)] = y
        y.extend(deep(v, memo) for v in x)
    elif isinstance(x, tuple):
        y = tuple(deep(v, memo) for v in x)
    elif isinstance(x, dict):
        y = {}
        memo[id(x)] = y
        for kk, v in x.items():
            y[kk] = deep(v, memo)
    elif hasattr(x, 'v_copy'):
        y = x.v_copy()
    elif type(x).__module__.startswith('cssrlib') and not isinstance(x, int):
        y = type(x).__new__(type(x))
        memo[id(x)] = y
        for kk, v in x.__dict__.items():
            y.__dict__[kk] = deep(v, memo)
    else:
        y = copy.deepcopy(x)
    memo[id(x)] = y
    return y


# --------------------------------------------------------------------- math
@model(math.floor)
def m_floor(I, a, k):
    return s_floor(a[0])


@model(np.floor)
def m_npfloor(I, a, k):
    return emap(lambda v: coerce(s_floor(v), 'f'), a[0])


@model(math.ceil)
def m_ceil(I, a, k):
    return s_ceil(a[0])


@model(np.ceil)
def m_npceil(I, a, k):
    return emap(lambda v: coerce(s_ceil(v), 'f'), a[0])


@model(np.trunc, np.fix, math.trunc)
def m_trunc(I, a, k):
    return emap(lambda v: s_trunc(v), a[0])


def emap(f, x):
    if isinstance(x, (list, tuple)):
        x = mkarr(x)
    if isinstance(x, np.ndarray):
        x = lift_arr(x)
        out = VArr(x.shape)
        for i in np.ndindex(x.shape):
            out[i] = f(x[i])
        return out
    return f(x)


def _unary(name, nat, symf):
    def one(v):
        if is_sym(v):
            return symf(v)
        return nat(v)

    def m(I, a, k):
        return emap(one, a[0])
    return m


for nm, nat, fns, sf in (
        ('sqrt', lambda v: float(np.sqrt(v)), (np.sqrt, math.sqrt), s_sqrt),
        ('sin', math.sin, (np.sin, math.sin), s_sin),
        ('cos', math.cos, (np.cos, math.cos), s_cos),
        ('tan', math.tan, (np.tan, math.tan), lambda v: s_sin(v)/s_cos(v)),
        ('atan', math.atan, (np.arctan, math.atan), lambda v: ufun('atan', v)),
        ('asin', math.asin, (np.arcsin, math.asin), lambda v: ufun('asin', v)),
        ('acos', math.acos, (np.arccos, math.acos), lambda v: ufun('acos', v)),
        ('exp', math.exp, (np.exp, math.exp), lambda v: ufun('exp', v)),
        ('log', lambda v: float(np.log(v)), (np.log, math.log), lambda v: ufun('log', v)),
        ('log10', lambda v: float(np.log10(v)), (np.log10, math.log10), lambda v: ufun('log10', v)),
        ('deg2rad', math.radians, (np.deg2rad, math.radians), lambda v: v*(math.pi/180)),
        ('rad2deg', math.degrees, (np.rad2deg, math.degrees), lambda v: v*(180/math.pi)),
):
    f = _unary(nm, nat, sf)
    for fn in fns:
        MODELS[fn] = f


@model(np.arctan2, math.atan2)
def m_atan2(I, a, k):
    if not is_sym(a[0]) and not is_sym(a[1]):
        return math.atan2(a[0], a[1])
    return ufun('atan2', a[0], a[1])


@model(math.fmod, np.fmod)
def m_fmod(I, a, k):
    if not is_sym(a[0]) and not is_sym(a[1]):
        return math.fmod(a[0], a[1])
    q = s_trunc(mkreal(zreal(a[0]))/a[1])
    return a[0] - q*a[1]


@model(np.mod, np.remainder)
def m_mod(I, a, k):
    return a[0] % a[1]


@model(math.isnan, np.isnan)
def m_isnan(I, a, k):
    def one(v):
        if isinstance(v, SReal):
            return False if v.nan is None else mkbool(v.nan)
        if is_sym(v):
            return False
        return bool(np.isnan(v))
    return emap(one, a[0])


@model(np.isfinite, math.isfinite)
def m_isfinite(I, a, k):
    def one(v):
        if isinstance(v, SReal):
            return True if v.nan is None else mkbool(z3.Not(v.nan))
        if is_sym(v):
            return True
        return bool(np.isfinite(v))
    return emap(one, a[0])


@model(np.sign)
def m_sign(I, a, k):
    def one(v):
        if is_sym(v):
            if isinstance(v, SInt):
                return mkint(z3.If(v.z > 0, z3.IntVal(1), z3.If(v.z < 0, z3.IntVal(-1), z3.IntVal(0))))
            z = zreal(v)
            return mkreal(z3.ToReal(z3.If(z > 0, z3.IntVal(1), z3.If(z < 0, z3.IntVal(-1), z3.IntVal(0)))))
        return float(np.sign(v))
    return emap(one, a[0])


def _order(I, x, worse):
    x = list(x)
    out = []
    for i, v in enumerate(x):
        j = len(out)
        while j > 0 and I.truth(worse(x[out[j-1]], v)):
            j -= 1
        out.insert(j, i)
    return out


@model(np.argsort)
def m_argsort(I, a, k):
    if not has_sym(a[0]):
        return np.argsort(*a, **k)
    if len(a) > 1 or k or np.ndim(a[0]) != 1:
        raise Unsupported('argsort')
    return np.array(_order(I, a[0], lambda p, v: v < p))


@model(np.argmax)
def m_argmax(I, a, k):
    if not has_sym(a[0]):
        return np.argmax(*a, **k)
    if len(a) > 1 or k or np.ndim(a[0]) != 1:
        raise Unsupported('argmax')
    b = 0
    for i in range(1, len(a[0])):
        if I.truth(a[0][i] > a[0][b]):
            b = i
    return b


@model(np.argmin)
def m_argmin(I, a, k):
    if not has_sym(a[0]):
        return np.argmin(*a, **k)
    if len(a) > 1 or k or np.ndim(a[0]) != 1:
        raise Unsupported('argmin')
    b = 0
    for i in range(1, len(a[0])):
        if I.truth(a[0][i] < a[0][b]):
            b = i
    return b


# -------------------------------------------------------------------- numpy
def _kind(dt):
    if dt in (int, np.int64, np.int32, 'int', 'int32', 'int64', 'uint8', np.uint8, np.int8, np.int16, np.uint16, np.uint32, np.uint64):
        return 'i'
    if dt in (bool, np.bool_, 'bool'):
        return 'b'
    if dt is object:
        return None
    return 'f'


def _full(shape, v, kind):
    if is_sym(shape):
        shape = C.concretize(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(C.concretize(x) if is_sym(x) else int(x) for x in shape)
    o = VArr(shape, kind)
    o[...] = v
    return o


@model(np.zeros, np.empty)
def m_zeros(I, a, k):
    dt = a[1] if len(a) > 1 else k.get('dtype', float)
    kind = _kind(dt)
    return _full(a[0] if a else k['shape'], {'f': 0.0, 'i': 0, 'b': False, None: 0}[kind], kind)


@model(np.ones)
def m_ones(I, a, k):
    dt = a[1] if len(a) > 1 else k.get('dtype', float)
    kind = _kind(dt)
    return _full(a[0], {'f': 1.0, 'i': 1, 'b': True, None: 1}[kind], kind)


@model(np.full)
def m_full(I, a, k):
    v = a[1] if len(a) > 1 else k['fill_value']
    dt = k.get('dtype', int if isinstance(v, (int, SInt)) and not isinstance(v, bool) else bool if isinstance(v, bool) else float)
    return _full(a[0], coerce(v, _kind(dt)), _kind(dt))


@model(np.zeros_like)
def m_zeros_like(I, a, k):
    x = a[0]
    kd = getattr(x, 'kind', None) or 'f'
    return _full(x.shape, {'f': 0.0, 'i': 0, 'b': False}[kd], kd)


@model(np.eye, np.identity)
def m_eye(I, a, k):
    n = C.concretize(a[0]) if is_sym(a[0]) else a[0]
    o = _full((n, n), 0.0, 'f')
    for i in range(n):
        o[i, i] = 1.0
    return o


def _infer(x):
    l = list(x.ravel())
    if any(isinstance(v, (float, SReal, np.floating)) for v in l):
        return 'f'
    if l and all(isinstance(v, (bool, SBool, np.bool_)) for v in l):
        return 'b'
    return 'i' if l else 'f'


@model(np.array, np.asarray)
def m_array(I, a, k):
    x = a[0]
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return lift_arr(np.array(x) if dt is None else np.array(x, dtype=dt))
    if isinstance(x, SymRange):
        x = list(range(C.concretize(x.lo), C.concretize(x.hi)))
    try:
        arr = np.array([np.asarray(lift_arr(v)) if isinstance(v, np.ndarray) else v for v in x] if isinstance(x, (list, tuple)) else x, dtype=object)
    except ValueError:
        raise Unsupported('ragged array')
    if arr.dtype == object and arr.size and isinstance(arr.ravel()[0], (str,)):
        return np.array(x)
    if arr.size and not isinstance(arr.ravel()[0], (int, float, SBase, np.number, np.bool_)):
        return np.array(x, dtype=dt)
    kind = _infer(arr) if dt is None else _kind(dt)
    r = coerce(arr, kind).view(VArr) if kind else arr.view(VArr)
    r.kind = kind
    return r


class _RC:
    pass


def _r_(I, idx):
    parts = idx if isinstance(idx, tuple) else (idx,)
    out = []
    for p in parts:
        if isinstance(p, slice):
            st = 0 if p.start is None else p.start
            out.extend(np.arange(I.cidx(st), I.cidx(p.stop), 1 if p.step is None else p.step).tolist())
        elif isinstance(p, (np.ndarray, list, tuple)):
            out.extend(list(lift_arr(p).ravel()) if isinstance(p, np.ndarray) else list(p))
        else:
            out.append(p)
    arr = mkarr(out) if out else VArr((0,))
    k = _infer(arr) if out else 'f'
    r = coerce(arr, k).view(VArr)
    r.kind = k
    return r


@model(np.arange)
def m_arange(I, a, k):
    a = [C.concretize(x) if isinstance(x, SInt) else x for x in a]
    return lift_arr(np.arange(*a, **k))


@model(np.dot, np.matmul)
def m_dot(I, a, k):
    x, y = a
    if is_sym(x) or is_sym(y) or np.ndim(x) == 0 or np.ndim(y) == 0:
        return x*y
    return matmul(x, y)


@model(np.linalg.norm)
def m_norm(I, a, k):
    if len(a) > 1 or k:
        if not has_sym(a[0]):
            return np.linalg.norm(denorm(a[0]), *a[1:], **k)
        raise Unsupported('norm options')
    s = 0.0
    xs = list(lift_arr(np.asarray(a[0])).ravel()) if isinstance(a[0], np.ndarray) else list(a[0])
    if not any(is_sym(x) for x in xs):
        return float(np.linalg.norm(np.array([float(x) for x in xs])))
    for x in xs:
        s = s + x*x
    return s_sqrt(s)


@model(np.cross)
def m_cross(I, a, k):
    x, y = [list(v) for v in a]
    return m_array(I, ([x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0]],), {})


@model(np.sum)
def m_npsum(I, a, k):
    if k or len(a) > 1:
        return np.sum(lift_arr(a[0]), *a[1:], **k)
    s = 0
    for x in (a[0].ravel() if isinstance(a[0], np.ndarray) else a[0]):
        s = s+x
    return s


@model(np.max, np.amax)
def m_npmax(I, a, k):
    return _minmax('>', I, (list(np.asarray(a[0]).ravel()),), {})


@model(np.min, np.amin)
def m_npmin(I, a, k):
    return _minmax('<', I, (list(np.asarray(a[0]).ravel()),), {})


@model(np.any)
def m_npany(I, a, k):
    return m_any(I, (list(np.asarray(a[0], dtype=object).ravel()),), {})


@model(np.all)
def m_npall(I, a, k):
    return m_all(I, (list(np.asarray(a[0], dtype=object).ravel()),), {})


@model(np.where)
def m_where(I, a, k):
    if len(a) == 3:
        c = a[0]
        if isinstance(c, np.ndarray):
            x = lift_arr(np.broadcast_to(np.asarray(a[1], dtype=object), c.shape))
            y = lift_arr(np.broadcast_to(np.asarray(a[2], dtype=object), c.shape))
            out = VArr(c.shape)
            for i in np.ndindex(c.shape):
                out[i] = merge_val(zbool(c[i]), x[i], y[i])
            return out
        return merge_val(zbool(c), a[1], a[2])
    c = a[0]
    if isinstance(c, np.ndarray) and c.dtype == object:
        flags = np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
        return np.where(flags)
    if is_sym(c):
        return np.where(bool(c))
    return np.where(c)


@model(np.nonzero)
def m_nonzero(I, a, k):
    return m_where(I, (a[0],), {})


@model(np.append)
def m_append(I, a, k):
    if k or len(a) > 2:
        raise Unsupported('append along an axis')
    return _r_(I, tuple(np.ravel(x) if isinstance(x, np.ndarray) else x for x in a))


@model(np.hstack, np.concatenate)
def m_concatenate(I, a, k):
    parts = list(a[0])
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    arr = [lift_arr(p) if isinstance(p, np.ndarray) else mkarr(p) for p in parts]
    if all(np.ndim(p) <= 1 for p in arr):
        return _r_(I, tuple(parts))
    if not isinstance(axis, int) or set(k) - {'axis'}:
        raise Unsupported('concatenate')
    f = any(getattr(p, 'kind', 'f') == 'f' or any(isinstance(v, (float, SReal)) for v in p.flat) for p in arr)
    return coerce(np.concatenate(arr, axis=axis), 'f' if f else 'i').view(VArr)


@model(np.outer)
def m_outer(I, a, k):
    x, y = a
    o = VArr((len(x), len(y)))
    for i in range(len(x)):
        for j in range(len(y)):
            o[i, j] = x[i]*y[j]
    return o


@model(np.diag)
def m_diag(I, a, k):
    x = lift_arr(a[0] if isinstance(a[0], np.ndarray) else mkarr(a[0]))
    if x.ndim == 1:
        o = _full((len(x), len(x)), 0.0, 'f')
        for i in range(len(x)):
            o[i, i] = x[i]
        return o
    return np.diag(x)


@model(np.logical_and)
def m_land(I, a, k):
    return a[0] & a[1]


@model(np.logical_or)
def m_lor(I, a, k):
    return a[0] | a[1]


@model(np.logical_not)
def m_lnot(I, a, k):
    return emap(lambda v: mkbool(z3.Not(zbool(v))) if is_sym(v) else not v, a[0])


for _f in (np.interp,):
    def m_interp(I, a, k):
        x, xp, fp = a[0], list(a[1]), list(a[2])
        if not is_sym(x) and not has_sym(xp) and not has_sym(fp):
            return float(np.interp(x, xp, fp))
        if x <= xp[0]:
            return fp[0]
        for j in range(1, len(xp)):
            if x <= xp[j]:
                return fp[j-1]+(fp[j]-fp[j-1])*(x-xp[j-1])/(xp[j]-xp[j-1])
        return fp[-1]
    MODELS[_f] = m_interp

_old_getitem = Interp.getitem


def _getitem(self, o, i):
    if o is np.r_:
        return _r_(self, i)
    if isinstance(o, type(np.r_)) or type(o).__name__ in ('CClass', 'RClass'):
        if has_sym(i):
            raise Unsupported('np.c_')
        return o[i]
    return _old_getitem(self, o, i)


Interp.getitem = _getitem


# ------------------------------------------------------------- symbolic map
class SMap:
    """dict with symbolic keys: uninterpreted base plus a write log"""
    v_symbolic = True

    def __init__(self, name, kind='r', empty=True, nanable=True):
        self.name, self.kind = name, kind
        self.empty = empty
        self.nanable = nanable
        self.log = []
        self._mk()

    def _mk(self):
        n = C.fresh('map_'+self.name)
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.dom = z3.Function(n+'_dom', I, B)
        self.val = z3.Function(n+'_val', I, R if self.kind == 'r' else I)
        self.nan = z3.Function(n+'_nan', I, B)

    def havoc(self):
        self.empty = False
        self.log = []
        self._mk()

    def _vsnap(self):
        return (self.empty, list(self.log), self.dom, self.val, self.nan)

    def _vrestore(self, s):
        self.empty, log, self.dom, self.val, self.nan = s
        self.log = list(log)

    def _vmerge(self, cz, a, b):
        if a[0] == b[0] and a[2] is b[2] and len(a[1]) == len(b[1]) and all(x[0] is y[0] or decide(x[0] == y[0]) for x, y in zip(a[1], b[1])):
            return (a[0], [(x[0], merge_val(cz, x[1], y[1])) for x, y in zip(a[1], b[1])], a[2], a[3], a[4])
        raise NeedFork('map log')

    def v_contains(self, I, k):
        zs = []
        for kk, _ in self.log:
            r = (kk == k)
            if r is True:
                return True
            if isinstance(r, SBase):
                zs.append(zbool(r))
        if not self.empty:
            zs.append(self.dom(zint(k)))
        if not zs:
            return False
        return mkbool(z3.Or(zs))

    def get(self, k):
        """value (no domain check)"""
        zi = zint(k)
        if self.kind == 'r':
            v = SReal(self.val(zi), self.nan(zi) if self.nanable else None)
        else:
            v = SInt(self.val(zi))
        for kk, x in self.log:
            r = (kk == k)
            if r is True:
                v = x
            elif isinstance(r, SBase):
                v = merge_val(zbool(r), x, v)
        return v

    def v_getitem(self, I, k):
        if not I.truth(self.v_contains(I, k)):
            raise KeyError(str(k))
        return self.get(k)

    def v_setitem(self, I, k, v):
        self.log.append((k, v))

    def keys(self):
        return self

    def items(self):
        raise Unsupported('items of a symbolic map')


@model(np.linalg.inv)
def m_inv(I, a, k):
    x = a[0]
    if not has_sym(x):
        return lift_arr(np.linalg.inv(denorm(x)))
    n = len(x)
    if n > 4:
        raise Unsupported('symbolic inverse of a %d x %d matrix' % (n, n))

    def det(M):
        if len(M) == 1:
            return M[0][0]
        return sum(((-1)**i*M[0][i]*det([r[:i]+r[i+1:] for r in M[1:]]) for i in range(len(M))), 0.0)
    M = [[x[i, j] for j in range(n)] for i in range(n)]
    d = det(M)
    if I.truth(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    o = VArr((n, n))
    for i in range(n):
        for j in range(n):
            m = [[M[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
            o[i, j] = ((-1)**(i+j)*det(m) if m else 1.0)/d
    o.kind = 'f'
    return o


@model(math.hypot)
def m_hypot(I, a, k):
    return m_norm(I, (list(a),), {})


@model(np.hypot)
def m_nphypot(I, a, k):
    if np.ndim(a[0]) or np.ndim(a[1]):
        raise Unsupported('hypot of arrays')
    return m_norm(I, (list(a),), {})


@model(math.fsum)
def m_fsum(I, a, k):
    s = 0.0
    for x in a[0]:
        s = s+x
    return s


@model(math.dist)
def m_dist(I, a, k):
    return m_norm(I, ([x-y for x, y in zip(*a)],), {})


@model(np.linalg.solve)
def m_solve(I, a, k):
    x, y = a
    if not has_sym(x) and not has_sym(y):
        return lift_arr(np.linalg.solve(denorm(x), denorm(y)))
    return matmul(m_inv(I, (x,), {}), y)


class HexText:
    """hexadecimal text of a symbolic buffer (opaque except to unhexlify)"""

    def __init__(self, buf):
        self.buf = buf


import binascii


@model(binascii.unhexlify)
def m_unhexlify(I, a, k):
    if isinstance(a[0], HexText):
        return a[0].buf
    return binascii.unhexlify(*a, **k)
