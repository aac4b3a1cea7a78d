"""Contract language: one specification, two readings.

A contract is a Python function of a generator object g.  Read by the prover
(SymG) its inputs are universally quantified symbols, g.call() executes the
current source of the function symbolically and every g.ensure() is a proof
obligation.  Read by the runtime checker (ConcG) the inputs are concrete
values, g.call() is the real function under CPython and g.ensure() is tested.
"""
import ast
import importlib
import math
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import sym
from .sym import (C, SBase, SInt, SReal, SBool, Unsupported, NeedFork, PathEnd, Budget, is_sym,
                  zbool, zint, zreal, mkbool, mkint, merge_val, nanof)
from . import interp as _i
from . import ring
from .interp import Interp, SOURCE, VArr, mkarr, has_sym, LOOPS, CONTRACTS, MODEL_USED, LoopSpec, J
from . import models as _m
from .models import SymBuf, SMap

CONTRACTS_BY_PROP = {}


class Contract:
    def __init__(self, prop, fn, **o):
        self.prop, self.fn = prop, fn
        self.name = o.pop('name', None) or fn.__name__
        self.fns = o.pop('fns', [])
        self.prove = o.pop('prove', True)         # False: bounded stand-in only
        self.why_bounded = o.pop('why', '')
        self.n = o.pop('n', 400)
        self.max_paths = o.pop('max_paths', 3000)
        self.tmo = o.pop('tmo', 60)
        self.ob_ms = o.pop('ob_ms', 15000)
        self.br_ms = o.pop('br_ms', 2000)
        self.loops = o.pop('loops', {})
        self.summaries = o.pop('summaries', {})
        self.merging = o.pop('merging', True)
        self.conc_s = o.pop('conc_s', 20)
        self.weight = o.pop('weight', 1)
        self.conc = o.pop('conc', True)
        self.bytearrays = o.pop('bytearrays', False)
        self.skipn = o.pop('skipn', False)
        assert not o, o


def contract(prop, **o):
    def deco(f):
        c = Contract(prop, f, **o)
        lst = CONTRACTS_BY_PROP.setdefault(prop, [])
        assert all(x.name != c.name for x in lst), c.name
        lst.append(c)
        return f
    return deco


# ---------------------------------------------------------------- spec logic
def And(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else (y,))]
    if any(is_sym(x) for x in a):
        return mkbool(z3.And([zbool(x) for x in a]))
    return all(bool(x) for x in a)


def Or(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else (y,))]
    if any(is_sym(x) for x in a):
        return mkbool(z3.Or([zbool(x) for x in a]))
    return any(bool(x) for x in a)


def Not(a):
    if is_sym(a):
        return mkbool(z3.Not(zbool(a)))
    return not a


def Implies(a, b):
    if callable(b):
        if is_sym(a):
            b = b()
        else:
            return True if not a else b()
    return Or(Not(a), b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(zbool(a) == zbool(b))
    return bool(a) == bool(b)


def Ite(c, a, b):
    if is_sym(c):
        return merge_val(zbool(c), a, b)
    return a if c else b


def isnan(x):
    if isinstance(x, SReal):
        return False if x.nan is None else mkbool(x.nan)
    if is_sym(x):
        return False
    try:
        return bool(math.isnan(x))
    except TypeError:
        return False


def absv(x):
    return abs(x)


def close(a, b, tol=1e-9, rel=True):
    """a and b agree (floats are compared up to rounding)"""
    if is_sym(a) or is_sym(b):
        for x in (a, b):
            if not is_sym(x) and not math.isfinite(x):
                return False         # inputs are finite reals or NaN
        za, zb = zreal(a), zreal(b)
        d = za-zb
        t = sym.fr(tol)
        if nanof(a) is None and nanof(b) is None and ring.small(d):
            c0 = ring.constant_of(d)
            if c0 is not None and abs(c0) <= t:
                return True
            if c0 is None:
                b = ring.bound_of(d, C.bounds)
                if b is not None and b <= t:
                    return True
        tz = z3.Q(t.numerator, t.denominator)
        if rel:
            ab = z3.If(zb >= 0, zb, -zb)
            tz = tz*(1+ab)
        z = z3.And(d <= tz, -d <= tz)
        n = sym.nor(nanof(a), nanof(b))
        if n is not None:
            z = z3.And(z3.Not(n), z)
        return mkbool(z)
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a-b) <= tol*(1+abs(b)) if rel else abs(a-b) <= tol


def same(a, b, tol=1e-9):
    """equal values, NaN equal to NaN"""
    na, nb = isnan(a), isnan(b)
    return Or(And(na, nb), And(Not(na), Not(nb), close(a, b, tol)))


def exact(a, b):
    if is_sym(a) or is_sym(b):
        return a == b
    return a == b


class Rejected(Exception):
    pass


class Failure(Exception):
    def __init__(self, name, detail=''):
        self.name, self.detail = name, detail


class Raised:
    """result of g.attempt() when the code raised"""
    def __init__(self, ex):
        self.ex = ex

    def __repr__(self):
        return 'Raised(%s: %s)' % (type(self.ex).__name__, self.ex)


def resolve(path):
    mod, _, qual = path.partition(':')
    m = importlib.import_module(mod if mod.startswith('cssrlib.') else 'cssrlib.'+mod)
    o = m
    for p in qual.split('.'):
        if p:
            try:
                o = getattr(o, p)
            except AttributeError:
                raise Unsupported('the tree has no %s' % path)
    return o


class Stub:
    """replace a function by its contract while the block runs; the contract
    receives the arguments of the call"""

    def __init__(self, path, fn, symbolic):
        self.path, self.fn, self.symbolic = path, fn, symbolic

    def __enter__(self):
        mod, _, q = self.path.partition(':')
        mod = mod if mod.startswith('cssrlib.') else 'cssrlib.'+mod
        if self.symbolic:
            f = resolve(self.path)
            self.key = (f.__module__, f.__qualname__)
            self.old = CONTRACTS.get(self.key)
            CONTRACTS[self.key] = lambda I, a, k: self.fn(*a, **k)
            return self
        importlib.import_module(mod)
        orig = resolve(self.path)
        self.undo = []
        if '.' in q:
            owner = resolve(mod+':'+q.rpartition('.')[0])
            self.undo.append((owner, q.rpartition('.')[2], orig))
            setattr(owner, q.rpartition('.')[2], self.fn)
            return self
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('cssrlib'):
                for a, v in list(vars(m).items()):
                    if v is orig:
                        self.undo.append((m, a, v))
                        setattr(m, a, self.fn)
        return self

    def __exit__(self, *a):
        if self.symbolic:
            if self.old is None:
                CONTRACTS.pop(self.key, None)
            else:
                CONTRACTS[self.key] = self.old
        else:
            for m, n, v in self.undo:
                setattr(m, n, v)


# ----------------------------------------------------------------- symbolic
class SymG:
    symbolic = True

    def __init__(self, drv):
        self.drv = drv
        self.I = drv.interp
        self.notes = {}

    def _reg(self, name, v, kind):
        if name in C.inputs:
            raise RuntimeError('duplicate input '+name)
        C.inputs[name] = (v, kind)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = z3.Int(name)
        self._reg(name, v, 'int')
        if lo is not None:
            C.assume(v >= lo)
        if hi is not None:
            C.assume(v <= hi)
            if not is_sym(hi):
                C.hi[name] = int(hi)
                if lo is not None and not is_sym(lo):
                    C.bounds[name] = (Fraction(lo), Fraction(hi))
        return SInt(v)

    def real(self, name, lo=None, hi=None, open_hi=False):
        v = z3.Real(name)
        self._reg(name, v, 'real')
        if lo is not None:
            C.assume(v >= zreal(lo))
        if hi is not None:
            C.assume(v < zreal(hi) if open_hi else v <= zreal(hi))
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi):
            C.bounds[name] = (Fraction(lo), Fraction(hi))
        return SReal(v)

    def nreal(self, name, lo=None, hi=None):
        """real or NaN"""
        r = self.real(name, lo, hi)
        n = z3.Bool(name+'?nan')
        self._reg(name+'?nan', n, 'bool')
        return SReal(r.z, n)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, v, 'bool')
        return SBool(v)

    def choice(self, name, vals):
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        i = self.int('ix:'+name, 0, len(vals)-1)
        return vals[C.concretize(i)]

    def buf(self, name, nbits):
        b = SymBuf(name, nbits)
        self._reg(name, b, 'buf')
        return b

    def hex(self, b):
        return _m.HexText(b)

    def zbuf(self, name, nbits):
        b = SymBuf(name, nbits)
        b.zero = True
        return b

    def field(self, b, off, w, signed=False):
        return b.read(off, w, signed)

    def setfield(self, b, off, w, v):
        if is_sym(v):
            C.assume(z3.And(zint(v) >= 0, zint(v) < (1 << w)))
        b.write(off, w, v)

    def bitat(self, b, k):
        z = b.get_bit(k)
        return mkbool(z) if isinstance(z, z3.ExprRef) else z

    def smap(self, name, kind='r', empty=True):
        return SMap(name, kind, empty)

    def assume(self, c):
        if is_sym(c):
            C.assume(zbool(c))
        elif not c:
            raise PathEnd('assume')

    def concretize(self, v):
        return C.concretize(v)

    def array(self, vals, kind='f'):
        a = mkarr(vals, kind)
        return _i.coerce(a, kind).view(VArr)

    def call(self, fn, *a, **k):
        if isinstance(fn, str):
            fn = resolve(fn)
        C.memo['symbolic_bytearrays'] = self.drv.c.bytearrays
        C.incall = True
        try:
            r = self.I.call(fn, list(a), k)
        except (Unsupported, NeedFork, RecursionError, RuntimeError):
            raise
        except Exception as ex:
            if any(w in str(ex) for w in _i._OURS):
                raise Unsupported('%s: %s' % (type(ex).__name__, str(ex)[:300]))
            if os.environ.get('VC_TB'):
                traceback.print_exception(ex)
                print('LINE', C.line)
            self.drv.obligation('no exception [%s]' % getattr(fn, '__qualname__', fn), False,
                                '%s: %s' % (type(ex).__name__, ex))
            raise PathEnd('exception')
        finally:
            C.incall = False
        self.drv.calls += 1
        return r

    def attempt(self, fn, *a, **k):
        if isinstance(fn, str):
            fn = resolve(fn)
        C.memo['symbolic_bytearrays'] = self.drv.c.bytearrays
        try:
            r = self.I.call(fn, list(a), k)
        except (Unsupported, NeedFork, RecursionError, RuntimeError):
            raise
        except Exception as ex:
            if any(w in str(ex) for w in _i._OURS):
                raise Unsupported('%s: %s' % (type(ex).__name__, str(ex)[:300]))
            self.drv.calls += 1
            return Raised(ex)
        self.drv.calls += 1
        return r

    new = call

    def stub(self, path, fn):
        return Stub(path, fn, True)

    def lift(self, obj, depth=2):
        """prepare a real object for symbolic execution: its numeric arrays
        become object arrays"""
        for k, v in list(obj.__dict__.items()):
            if isinstance(v, np.ndarray) and v.dtype != object:
                obj.__dict__[k] = _i.lift_arr(v)
            elif type(v).__module__.startswith('cssrlib') and depth > 0 and hasattr(v, '__dict__') and not isinstance(v, int):
                self.lift(v, depth-1)
            elif isinstance(v, list) and depth > 0:
                for n, x in enumerate(v):
                    if isinstance(x, np.ndarray) and x.dtype != object:
                        v[n] = _i.lift_arr(x)
                    elif type(x).__module__.startswith('cssrlib') and hasattr(x, '__dict__') and not isinstance(x, int):
                        self.lift(x, depth-1)
        return obj

    def ensure(self, name, cond, detail=''):
        self.drv.obligation(name, cond, detail)

    def note(self, **k):
        self.notes.update(k)


# ----------------------------------------------------------------- concrete
class ConcG:
    symbolic = False

    def __init__(self, rng, given=None, pool=()):
        self.rng = rng
        self.given = given or {}
        self.pool = pool
        self.values = {}
        self.notes = {}
        self.nens = 0
        # how often an integer repeats one drawn before (equalities between inputs are rare otherwise)
        self.echo = rng.choice((0, 0, 0, .2, .6, .95)) if rng else 0
        self.drawn = []

    def _int(self, name, lo, hi):
        if name in self.given:
            return int(self.given[name])
        if lo is None:
            lo = -(1 << 20)
        if hi is None:
            hi = 1 << 20
        r = self.rng
        p = r.random()
        if p < 0.12:
            return r.choice((lo, hi, min(hi, lo+1), max(lo, hi-1)))
        if p < 0.30 and self.pool:
            c = [v for v in (r.choice(self.pool) for _ in range(8)) if v == int(v) and lo <= v <= hi]
            if c:
                v = int(r.choice(c))+r.choice((0, 0, 1, -1))
                return min(hi, max(lo, v))
        if p < 0.45:
            span = hi-lo
            return lo+int(span*r.random()**4)
        return r.randint(lo, hi)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = self._int(name, lo, hi)
        if self.echo and name not in self.given:
            if self.rng.random() < self.echo:
                c = [x for x in self.drawn if (lo is None or x >= lo) and (hi is None or x <= hi)]
                v = self.rng.choice(c) if c else v
            self.drawn.append(v)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Rejected()
        self.values[name] = v
        return v

    def real(self, name, lo=None, hi=None, open_hi=False):
        if name in self.given:
            v = float(self.given[name])
        else:
            l = -1e6 if lo is None else float(lo)
            h = 1e6 if hi is None else float(hi)
            r = self.rng
            p = r.random()
            if p < 0.12:
                v = r.choice((l, h, (l+h)/2, 0.0 if l <= 0 <= h else l))
            elif p < 0.28 and self.pool:
                c = [x for x in (r.choice(self.pool) for _ in range(8)) if l <= x <= h]
                v = float(r.choice(c)) if c else r.uniform(l, h)
                if r.random() < 0.5:
                    v += r.choice((1e-7, -1e-7, 1e-3, -1e-3, 0.5, -0.5, 1, -1))
            elif p < 0.4:
                v = float(r.randint(int(math.ceil(l)), max(int(math.ceil(l)), int(h))))
            else:
                v = r.uniform(l, h)
            if v < l:
                v = l
            if v > h:
                v = h
            if open_hi and v >= h:
                v = l + (h-l)*r.random()*0.999999
        if lo is not None and v < lo or hi is not None and (v > hi or open_hi and v >= hi):
            raise Rejected()
        self.values[name] = v
        return v

    def nreal(self, name, lo=None, hi=None):
        v = self.real(name, lo, hi)
        n = self.bool(name+'?nan') if name+'?nan' in self.given else self.rng.random() < 0.15
        self.values[name+'?nan'] = n
        return math.nan if n else v

    def bool(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.values[name] = v
        return v

    def choice(self, name, vals):
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        k = 'ix:'+name
        i = int(self.given[k]) if k in self.given else self.rng.randrange(len(vals))
        if not 0 <= i < len(vals):
            raise Rejected()
        self.values[k] = i
        return vals[i]

    def buf(self, name, nbits):
        n = (nbits+7)//8
        if name in self.given:
            v = self.given[name]
            b = bytearray(bytes.fromhex(v) if isinstance(v, str) else v)
            b = (b+bytearray(n))[:n]
        else:
            p = self.rng.random()
            if p < 0.07:
                b = bytearray(n)
            elif p < 0.12:
                b = bytearray(b'\xff'*n)
            elif p < 0.25:
                b = bytearray(self.rng.choice((0, 255, self.rng.randrange(256))) for _ in range(n))
            else:
                b = bytearray(self.rng.randbytes(n))
        self.values[name] = bytes(b).hex()
        return b

    def hex(self, b):
        return bytes(b).hex()

    def zbuf(self, name, nbits):
        return bytearray((nbits+7)//8)

    def field(self, b, off, w, signed=False):
        off = int(off)
        if w == 0:
            return 0
        lo, hi = off//8, (off+w+7)//8
        if hi > len(b):
            raise Rejected()
        x = int.from_bytes(bytes(b[lo:hi]), 'big') >> (hi*8-off-w)
        x &= (1 << w)-1
        if signed and x >> (w-1):
            x -= 1 << w
        return x

    def setfield(self, b, off, w, v):
        v = int(v)
        if not 0 <= v < (1 << w):
            raise Rejected()
        off = int(off)
        for k in range(w):
            bit = (v >> (w-1-k)) & 1
            p = off+k
            if bit:
                b[p//8] |= 0x80 >> (p % 8)
            else:
                b[p//8] &= ~(0x80 >> (p % 8)) & 0xff

    def bitat(self, b, k):
        return bool(self.field(b, k, 1))

    def smap(self, name, kind='r', empty=True):
        return {}

    def assume(self, c):
        if not c:
            raise Rejected()

    def concretize(self, v):
        return int(v)

    def array(self, vals, kind='f'):
        return np.array(vals, dtype={'f': float, 'i': int, 'b': bool}[kind])

    def call(self, fn, *a, **k):
        if isinstance(fn, str):
            fn = resolve(fn)
        try:
            with np.errstate(all='ignore'):
                return fn(*a, **k)
        except TimeoutError:
            raise
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.nens += 1
            raise Failure('no exception [%s]' % getattr(fn, '__qualname__', fn),
                          '%s: %s at %s:%d' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))

    def attempt(self, fn, *a, **k):
        if isinstance(fn, str):
            fn = resolve(fn)
        try:
            with np.errstate(all='ignore'):
                return fn(*a, **k)
        except TimeoutError:
            raise
        except Exception as ex:
            return Raised(ex)

    new = call

    def stub(self, path, fn):
        return Stub(path, fn, False)

    def lift(self, obj, depth=2):
        return obj

    def ensure(self, name, cond, detail=''):
        self.nens += 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            raise Failure(name, str(detail))

    def note(self, **k):
        self.notes.update(k)


ENGINE_ERRORS = (RuntimeError, TypeError, ValueError, KeyError, IndexError, AttributeError, AssertionError, NotImplementedError,
                 OverflowError, ZeroDivisionError, NameError)


class Stuck(Exception):
    """a path is beyond the engine"""


# ------------------------------------------------------------------- driver
class Driver:
    """explores every path of a contract and discharges its obligations"""

    def __init__(self, c, deadline, merging=None):
        self.c = c
        self.obs = {}             # name -> [n, proved, t, status]
        self.refuted = []         # (name, inputs, detail)
        self.unknown = []
        self.path_models = []
        self.calls = 0
        self.npaths = 0
        self.completed = 0
        self.deadline = deadline
        self.interp = Interp(on_obligation=self.obligation)
        self.interp.merging = c.merging if merging is None else merging

    def inputs_of(self, m):
        out = {}
        for n, (v, kind) in C.inputs.items():
            if kind == 'int':
                out[n] = m.eval(v, model_completion=True).as_long()
            elif kind == 'real':
                x = m.eval(v, model_completion=True)
                try:
                    out[n] = float(x.as_fraction())
                except Exception:
                    try:
                        out[n] = float(x.approx(20).as_fraction())
                    except Exception:
                        out[n] = 0.0
            elif kind == 'bool':
                out[n] = z3.is_true(m.eval(v, model_completion=True))
            elif kind == 'buf':
                nb = v.nbits or 2048
                x = 0
                fi = m[v.bit]
                if fi is not None:
                    dflt = z3.is_true(fi.else_value())
                    if not (dflt or z3.is_false(fi.else_value())):
                        for k in range(nb):
                            x = (x << 1) | (1 if z3.is_true(m.eval(v.bit(z3.IntVal(k)), model_completion=False)) else 0)
                    else:
                        x = (1 << nb)-1 if dflt else 0
                        for e in range(fi.num_entries()):
                            en = fi.entry(e)
                            k = en.arg_value(0).as_long()
                            if 0 <= k < nb:
                                bit = 1 << (nb-1-k)
                                x = x | bit if z3.is_true(en.value()) else x & ~bit
                x <<= (-nb) % 8
                out[n] = x.to_bytes((nb+7)//8, 'big').hex()
        return out

    def obligation(self, name, cond, detail=''):
        if C.replaying():
            return                  # decided when the path this one branches off was here
        t0 = time.time()
        rec = self.obs.setdefault(name, [0, 0, 0.0, 'proved'])
        rec[0] += 1
        if C.merge_depth:
            pass
        if not is_sym(cond):
            if isinstance(cond, np.ndarray):
                cond = _m.m_npall(None, (cond,), {})
        if not is_sym(cond):
            if cond:
                rec[1] += 1
                return
            z = z3.BoolVal(False)
        else:
            z = z3.simplify(zbool(cond))
            if z3.is_true(z):
                rec[1] += 1
                return
        r, m = self.solve(z3.Not(z))
        rec[2] += time.time()-t0
        if r == 'unsat':
            rec[1] += 1
            return
        if r == 'sat':
            rec[3] = 'refuted'
            try:
                inp = self.inputs_of(m)
            except Exception as ex:
                inp = {}
            self.refuted.append((name, inp, '%s | model: %s' % (detail, C.model_str(m)[:1500])))
            if len(self.refuted) >= 6:
                raise Budget('enough refutations')
            return
        if rec[3] == 'proved':
            rec[3] = 'unknown'
        self.unknown.append((name, 'solver: %s' % r))

    def solve(self, goal):
        """unsat / sat / unknown of path condition and goal; definitions of
        wide fields are only used when the lighter query does not decide"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        m = None
        r = 'unknown'
        for k in range(4):
            if k == 0 and not C.defs:
                continue
            if k == 3:
                if not C.defs:
                    break
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            elif k == 2:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            else:
                s = z3.Solver()
            s.set('timeout', self.c.ob_ms if k else max(2000, self.c.ob_ms//3))
            s.add(C.pc)
            s.add(C.assume_stack)
            if k == 1 or k == 3 or (k == 2 and not C.defs):
                s.add(C.defs)
            s.add(goal)
            t = time.time()
            r = str(s.check())
            C.nqueries += 1
            C.t_solver += time.time()-t
            if r == 'unsat':
                if EXPORT is not None:
                    EXPORT(s)
                return r, None
            if r == 'sat' and (not C.defs or k in (1, 3)):
                return r, s.model()
        return ('unknown' if r == 'sat' else r), None

    def model(self):
        """an input that takes the current path, for the runtime check"""
        try:
            if C.check() == 'sat':
                self.path_models.append(self.inputs_of(C.solver.model()))
        except Exception:
            pass

    @staticmethod
    def why(ex):
        if isinstance(ex, (Unsupported, NeedFork)):
            return '%s: %s' % (type(ex).__name__, ex)
        if isinstance(ex, RecursionError):
            return 'recursion'
        if isinstance(ex, z3.Z3Exception):
            return 'z3: %s' % ex
        return 'engine: %s: %s @ %s' % (type(ex).__name__, ex, '; '.join('%s:%d' % (f.name, f.lineno) for f in traceback.extract_tb(ex.__traceback__)[-4:]))

    def run(self):
        c = self.c
        C.reset_all(branch_timeout=c.br_ms, ob_timeout=c.ob_ms, max_paths=c.max_paths, deadline=self.deadline)
        saved_l = dict(LOOPS)
        saved_c = dict(CONTRACTS)
        for k, v in c.loops.items():
            mod, _, q = k.partition(':')
            LOOPS[('cssrlib.'+mod, q)] = v
        for k, v in c.summaries.items():
            mod, _, q = k.partition(':')
            CONTRACTS[('cssrlib.'+mod, q)] = v
        t0 = time.time()
        self.status, self.reason = 'proved', ''
        stuck = []
        try:
            while C.work:
                dec = C.work.pop()
                C.begin(dec)
                C.deadline = self.deadline
                J.frames.clear()
                self.npaths += 1
                C.npaths = self.npaths
                self.interp.steps = 0
                self.interp.depth = 0
                g = SymG(self)
                try:
                    c.fn(g)
                    self.completed += 1
                    if len(self.path_models) < 60:
                        self.model()
                except PathEnd as pe:
                    if str(pe) == 'loop body checked':
                        self.completed += 1
                except (Unsupported, NeedFork, RecursionError, z3.Z3Exception)+ENGINE_ERRORS as ex:
                    # the path is beyond the engine: the contract is not proved, but an input that
                    # takes the path is evaluated on the real code and the other paths are still explored
                    why = self.why(ex)
                    stuck.append(why)
                    if self.interp.merging or len(stuck) > 80:
                        raise Stuck(stuck[0])
                    C.merge_depth = 0
                    self.model()
                finally:
                    C.active = False
            if stuck:
                raise Stuck(stuck[0])
        except Budget as ex:
            if stuck:
                self.status, self.reason = 'unsupported', stuck[0]
            elif not self.refuted:
                self.status, self.reason = 'unknown', 'budget: %s' % ex
        except Stuck as ex:
            self.status, self.reason = 'unsupported', str(ex)
        finally:
            C.merge_depth = 0
            LOOPS.clear()
            LOOPS.update(saved_l)
            CONTRACTS.clear()
            CONTRACTS.update(saved_c)
        if self.refuted:
            self.status = 'refuted'
        elif self.status == 'proved':
            if self.unknown:
                self.status, self.reason = 'unknown', '%s: %s' % self.unknown[0]
            elif not self.obs or self.completed == 0:
                self.status, self.reason = 'unknown', 'vacuous: no obligation reached'
        self.wall = time.time()-t0
        return self


EXPORT = None


def mine_constants(fns):
    """numeric constants in the current source of the given functions"""
    out = set()
    for p in fns:
        mod, _, q = p.partition(':')
        mod = mod if mod.startswith('cssrlib.') else 'cssrlib.'+mod
        SOURCE.load(mod)
        nodes = []
        for (m, qq), (node, _) in SOURCE.funcs.items():
            if m == mod and (not q or qq == q or qq.startswith(q+'.')):
                nodes.append(node)
        for node in nodes:
            for n in ast.walk(node):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    try:
                        v = float(n.value)
                        if math.isfinite(v):
                            out.add(n.value)
                    except OverflowError:
                        pass
    return sorted(out)


CALL_LIMIT = 30


def _on_alarm(*a):
    raise TimeoutError()


def run_concrete(c, n, seed, secs, given_list=(), pool=()):
    """runtime check of the contract on the real code; returns
    (evaluations, rejected, failure or None)"""
    t0 = time.time()
    ev = rej = 0
    samples = []
    k = 0
    glist = list(given_list)
    while k < n + len(glist):
        rng = random.Random('%s/%s/%s' % (seed, c.name, k))
        given = glist[k] if k < len(glist) else None
        k += 1
        g = ConcG(rng, given, pool)
        np.random.seed(rng.randrange(1 << 31))
        random.seed(rng.randrange(1 << 31))
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CALL_LIMIT)
        try:
            c.fn(g)
            signal.alarm(0)
            if g.nens:
                ev += 1
                if len(samples) < 3:
                    samples.append({a: b for a, b in list(g.values.items())[:8]})
        except Rejected:
            signal.alarm(0)
            rej += 1
            if given and any(isinstance(v, float) for v in given.values()):
                # a model often sits on a limit that rounding crosses: same path, other reals
                glist.insert(k, {a: v for a, v in given.items() if not isinstance(v, float)})
        except (Unsupported, PathEnd):
            raise
        except Exception as ex:
            if isinstance(ex, Failure):
                f = ex
            elif isinstance(ex, TimeoutError):
                f = Failure('termination', 'no answer within %d s' % CALL_LIMIT)
            else:
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                f = Failure('result has the specified shape', '%s: %s at %s:%d' % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
            signal.alarm(0)
            return ev+1, rej, {'obligation': f.name, 'detail': f.detail, 'inputs': g.values, 'notes': {a: str(b) for a, b in g.notes.items()},
                               'given': given is not None}, samples
        if time.time()-t0 > secs and k > len(glist) and ev >= min(20, n):
            break
        if time.time()-t0 > 4*secs:
            break
    return ev, rej, None, samples
