"""Symbolic interpreter for the Python subset used by cssrlib.

The functions interpreted are the ones in /repo's current working tree: their
text is parsed on every run, nothing is copied or re-written by hand.
"""
import ast
import functools
import builtins
import collections
import importlib
import inspect
import operator
import os
import types
from enum import Enum, IntEnum
import numpy as np
import z3
from .sym import (C, SBase, SInt, SReal, SBool, Unsupported, NeedFork, PathEnd,
                  is_sym, zbool, mkbool, merge_val, s_trunc, s_round, nanof)

REPO = os.environ.get('VC_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'cssrlib')


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Undef:
    """local bound on one side of a merged branch only"""


# ------------------------------------------------------------------ journal
class Journal:
    def __init__(self):
        self.frames = []

    def touch(self, c):
        if not self.frames:
            return
        k = id(c)
        snap = None
        for f in self.frames:
            if k not in f:
                if snap is None:
                    snap = self.snap(c)
                f[k] = (c, snap)

    @staticmethod
    def snap(c):
        if isinstance(c, (list, bytearray)):
            return list(c)
        if isinstance(c, dict):
            return dict(c)
        if isinstance(c, set):
            return set(c)
        if isinstance(c, np.ndarray):
            return c.copy()
        if hasattr(c, '_vsnap'):
            return c._vsnap()
        if hasattr(c, '__dict__'):
            return dict(c.__dict__)
        raise NeedFork('cannot snapshot %s' % type(c).__name__)

    @staticmethod
    def restore(c, s):
        if isinstance(c, bytearray):
            c[:] = bytes(s)
        elif isinstance(c, list):
            c[:] = s
        elif isinstance(c, dict):
            c.clear()
            c.update(s)
        elif isinstance(c, set):
            c.clear()
            c.update(s)
        elif isinstance(c, np.ndarray):
            c[...] = s
        elif hasattr(c, '_vrestore'):
            c._vrestore(s)
        else:
            c.__dict__.clear()
            c.__dict__.update(s)

    @staticmethod
    def merge(cz, c, a, b, env=False):
        """contents a if cz else b"""
        if isinstance(c, (list, bytearray)):
            if len(a) != len(b):
                raise NeedFork('list length differs')
            r = [merge_val(cz, x, y) for x, y in zip(a, b)]
            if isinstance(c, bytearray) and any(is_sym(x) for x in r):
                raise NeedFork('bytearray')
            return r
        if isinstance(c, set):
            if a != b:
                raise NeedFork('sets differ')
            return a
        if isinstance(c, np.ndarray):
            if a.shape != b.shape:
                raise NeedFork('shape')
            if c.dtype != object:
                if np.array_equal(a, b):
                    return a
                raise NeedFork('native array')
            out = a.copy()
            for i in np.ndindex(a.shape):
                out[i] = merge_val(cz, a[i], b[i])
            return out
        if hasattr(c, '_vmerge'):
            return c._vmerge(cz, a, b)
        out = {}
        for k in list(a)+[k for k in b if k not in a]:
            if k in a and k in b:
                try:
                    out[k] = merge_val(cz, a[k], b[k])
                except NeedFork:
                    raise
            elif env:
                out[k] = Undef
            else:
                raise NeedFork('key on one side only')
        return out


J = Journal()
LIVE_NOW = [set()]


class Env(dict):
    __slots__ = ('parent', 'fn', 'globs', 'nonl', 'live')
    __hash__ = object.__hash__


# ------------------------------------------------------------- source index
class Source:
    """AST of the current tree, by module and qualified name"""

    def __init__(self):
        self.mods = {}
        self.funcs = {}
        self.used = {}

    def load(self, mod):
        if mod in self.mods:
            return
        self.mods[mod] = None
        path = os.path.join(SRC, mod.split('.')[-1]+'.py')
        if not os.path.exists(path):
            return
        with open(path, encoding='utf-8') as f:
            text = f.read()
        tree = ast.parse(text)
        self.mods[mod] = (text, tree)

        def walk(node, qual, cls):
            for n in node.body:
                if isinstance(n, ast.FunctionDef):
                    q = qual+n.name
                    self.funcs[(mod, q)] = (n, cls)
                elif isinstance(n, ast.ClassDef):
                    walk(n, qual+n.name+'.', qual+n.name)
        walk(tree, '', None)

    def find(self, mod, qual):
        self.load(mod)
        r = self.funcs.get((mod, qual))
        if r is not None and (mod, qual) not in self.used:
            self.used[(mod, qual)] = ast.get_source_segment(self.mods[mod][0], r[0])
        return r


SOURCE = Source()
MODELS = {}          # python callable -> model(interp, args, kwargs)
METHODS = {}         # (type, name) -> model
CONTRACTS = {}       # (mod, qual) -> summary used at call sites
LOOPS = {}           # (mod, qual) -> list of LoopSpec
MODEL_USED = set()


def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS[fn] = f
        return f
    return deco


class SymText(str):
    """text of a symbolic value: may be printed, its content is not known"""

    def _no(self, *a):
        raise Unsupported('content of the text of a symbolic value')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = __getitem__ = __len__ = __iter__ = _no
    startswith = endswith = split = find = strip = lower = upper = replace = encode = isdigit = _no

    def __add__(self, o):
        return SymText(str.__add__(self, o))

    def __radd__(self, o):
        return SymText(str.__add__(o, self))


class Closure:
    """function defined inside interpreted code (def / lambda)"""

    def __init__(self, interp, node, env, mod, cls, defaults, kwd):
        self.interp, self.node, self.env = interp, node, env
        self.mod, self.cls, self.defaults, self.kwd = mod, cls, defaults, kwd

    def __call__(self, *a, **k):
        return self.interp.call_node(self.node, self.mod, self.cls, a, k, self.defaults, self.kwd,
                                     parent=self.env, name='<closure>')


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class LoopSpec:
    """invariant for a loop of a function under contract.

    match(node) tells whether the annotation applies; inv(e) -> list of
    (name, condition) over e.k (iterations done), e.env (locals) ; havoc(e)
    replaces the heap parts the body may change; frame: names of locals that
    keep their value although the body assigns them is never assumed."""

    def __init__(self, inv, havoc=None, match=None, label='loop', types=None, touch=()):
        self.touch = touch
        self.inv, self.havoc, self.match, self.label = inv, havoc, match, label
        self.types = types or {}


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
        ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
        ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
        ast.MatMult: operator.matmul}
_MERGE_BAN = (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Try, ast.With, ast.Global,
              ast.Nonlocal, ast.Delete, ast.Assert, ast.Yield, ast.YieldFrom)


RETURNING = {}


def _has_ban(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, _MERGE_BAN):
                return True
    return False


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


class LoopEnv:
    def __init__(self, interp, env, k, n):
        self.interp, self.env, self.k, self.n = interp, env, k, n

    def __getattr__(self, n):
        try:
            return self.env[n]
        except KeyError:
            raise Unsupported('loop annotation: no local %s' % n)


MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'add', 'discard', 'popitem', 'fill'}


_OURS = ('SInt', 'SReal', 'SBool', 'VArr', 'SymBuf', 'SMap', 'Closure', 'vc.')


def engine_limit(ex):
    """the exception comes from handing a proxy to code that is not interpreted"""
    if isinstance(ex, (TypeError, AttributeError, NotImplementedError)) or type(ex).__module__.startswith(('numba', 'z3')):
        return True
    return any(w in str(ex) for w in _OURS)


class Interp:
    def __init__(self, on_obligation=None, max_steps=4000000):
        self.on_obligation = on_obligation
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.stack = []
        self.merge_fail = {None: True}
        self.merging = True
        self.linetrace = set()

    # ---------------------------------------------------------------- calls
    def call(self, fn, args, kw=None):
        kw = kw or {}
        pf = getattr(fn, 'py_func', None) if type(fn).__module__.startswith('numba') else None
        if pf is None and isinstance(fn, functools._lru_cache_wrapper):
            pf = fn.__wrapped__
        if pf is not None and isinstance(pf, types.FunctionType) and self._is_repo(pf):
            fn = pf
        # symbolic interpreter objects
        if isinstance(fn, Closure):
            return fn(*args, **kw)
        try:
            m = MODELS.get(fn)
        except TypeError:
            m = None
        if m is not None:
            MODEL_USED.add(getattr(fn, '__module__', '') and '%s.%s' % (getattr(fn, '__module__', ''), getattr(fn, '__name__', fn)) or str(fn))
            return m(self, args, kw)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            if self._is_repo(f):
                return self.call_func(f, (fn.__self__,)+tuple(args), kw)
            summ = CONTRACTS and CONTRACTS.get((getattr(f, '__module__', None), getattr(f, '__qualname__', None)))
            return summ(self, args, kw) if summ else self.native(fn, args, kw)
        if isinstance(fn, types.FunctionType):
            if self._is_repo(fn):
                return self.call_func(fn, args, kw)
            return self.native(fn, args, kw)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        if isinstance(fn, types.BuiltinMethodType) and fn.__self__ is not None and not isinstance(fn.__self__, types.ModuleType):
            return self.method(fn, args, kw)
        return self.native(fn, args, kw)

    @staticmethod
    def _is_repo(f):
        return (getattr(f, '__module__', '') or '').startswith('cssrlib')

    def construct(self, cls, args, kw):
        if issubclass(cls, Enum):
            if len(args) == 1 and is_sym(args[0]):
                v = args[0]
                vals = sorted({int(m.value) for m in cls})
                ok = z3.Or([v.z == x for x in vals])
                if not C.branch(ok):
                    raise ValueError('not a valid %s' % cls.__name__)
                return v
            return cls(*args, **kw)
        if issubclass(cls, BaseException):
            return cls(*[str(a) for a in args])
        if self._is_repo(cls):
            if cls.__new__ is not object.__new__:   # named tuples and the like
                if '__init__' in cls.__dict__ or isinstance(cls.__new__, types.FunctionType) and SOURCE.find(cls.__module__, cls.__qualname__+'.__new__'):
                    raise Unsupported('construction of '+cls.__name__)
                return cls(*args, **kw)
            obj = cls.__new__(cls)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call_func(init, (obj,)+tuple(args), kw)
            return obj
        return self.native(cls, args, kw)

    def call_func(self, f, args, kw):
        mod, qual = f.__module__, f.__qualname__
        summ = CONTRACTS.get((mod, qual))
        if summ is not None:
            return summ(self, args, kw)
        r = SOURCE.find(mod, qual)
        if r is None:
            raise Unsupported('no source for %s.%s' % (mod, qual))
        node, cls = r
        return self.call_node(node, mod, cls, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {}, name=qual)

    def call_node(self, node, mod, cls, args, kw, defaults, kwdefaults, parent=None, name=''):
        env = Env()
        env.parent = parent
        env.fn = (mod, name, cls)
        env.globs = importlib.import_module(mod).__dict__
        env.nonl = set()
        env.live = None
        a = node.args
        pos = [x.arg for x in a.posonlyargs+a.args]
        args = list(args)
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise TypeError('%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        kw = dict(kw)
        for n in pos[len(args):]:
            if n in kw:
                env[n] = kw.pop(n)
        nd = len(defaults)
        for n, d in zip(pos[len(pos)-nd:] if nd else [], defaults):
            if n not in env:
                env[n] = d
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise TypeError('%s() got an unexpected keyword argument %r' % (name, next(iter(kw))))
        for n in pos:
            if n not in env:
                raise TypeError('%s() missing argument %r' % (name, n))
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        self.stack.append(name)
        try:
            self.block(node.body, env)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()
        return None

    def method(self, fn, args, kw):
        """method of a builtin container / array"""
        o = fn.__self__
        n = fn.__name__
        m = METHODS.get((type(o), n))
        if m is not None:
            return m(self, o, args, kw)
        if n in MUTATING:
            J.touch(o)
        if isinstance(o, dict):
            if n in ('get', 'pop', 'setdefault') and args:
                k = self.dict_find(o, args[0])
                if k is not _NOKEY:
                    args = (k,)+tuple(args[1:])
                elif is_sym(args[0]):
                    if n == 'get':
                        return args[1] if len(args) > 1 else None
                    if n == 'pop':
                        if len(args) > 1:
                            return args[1]
                        raise KeyError(str(args[0]))
            return fn(*args, **kw)
        if isinstance(o, list) and n in ('index', 'remove', 'count'):
            return fn(*args, **kw)
        if isinstance(o, str):
            if n in ('format',):
                return SymText('<fmt>') if any(is_sym(a) for a in args) or any(is_sym(a) for a in kw.values()) else fn(*args, **kw)
            if n == 'join':
                if not isinstance(args[0], (list, tuple, str)) and hasattr(args[0], '__iter__'):
                    args = (list(args[0]),)      # an iterator is read once
                if any(is_sym(x) for x in args[0]):
                    raise Unsupported('join symbolic')
                if any(isinstance(x, SymText) for x in args[0]):
                    return SymText('<fmt>')
        return self.native(fn, args, kw)

    def native(self, fn, args, kw):
        if hasattr(fn, '__self__') and C.merge_depth and isinstance(getattr(fn, '__self__', None), (list, dict, set, np.ndarray, bytearray)):
            J.touch(fn.__self__)
        args = [denorm(a) for a in args]
        try:
            return fn(*args, **kw)
        except Exception as ex:
            if engine_limit(ex) and (any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values())):
                raise Unsupported('native call %s with symbolic values: %s' % (getattr(fn, '__name__', fn), ex))
            raise

    # ----------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        C.line = s.lineno
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for tg in s.targets:
                self.assign(tg, v, env)
        elif t is ast.AugAssign:
            self.augassign(s, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t is ast.If:
            self.do_if(s, env)
        elif t is ast.For:
            self.do_for(s, env)
        elif t is ast.While:
            self.do_while(s, env)
        elif t is ast.Return:
            raise _Return(self.ev(s.value, env) if s.value is not None else None)
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Pass:
            pass
        elif t is ast.Raise:
            if s.exc is None:
                raise
            e = self.ev(s.exc, env)
            raise e
        elif t is ast.Try:
            self.do_try(s, env)
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise AssertionError()
        elif t is ast.FunctionDef:
            env[s.name] = Closure(self, s, env, env.fn[0], env.fn[2],
                                  tuple(self.ev(d, env) for d in s.args.defaults), {})
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    o = self.ev(tg.value, env)
                    i = self.ev_index(tg.slice, env)
                    J.touch(o)
                    if isinstance(o, dict):
                        k = self.dict_find(o, i)
                        if k is _NOKEY:
                            raise KeyError(str(i))
                        del o[k]
                    else:
                        del o[self.cidx(i)]
                elif isinstance(tg, ast.Name):
                    J.touch(env)
                    del env[tg.id]
                else:
                    raise Unsupported('del')
        elif t in (ast.Import, ast.ImportFrom):
            ns = {}
            exec(compile(ast.Module([s], []), '<import>', 'exec'), dict(env.globs), ns)
            env.update(ns)
        elif t is ast.With:
            self.do_with(s.items, s.body, env)
        elif t is ast.Match:
            v = self.ev(s.subject, env)
            for c in s.cases:
                if self.matches(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                    self.block(c.body, env)
                    break
        elif t is ast.Nonlocal:
            env.nonl = env.nonl | set(s.names)
        elif t is ast.Global:
            raise Unsupported('global')
        else:
            raise Unsupported('statement %s' % t.__name__)

    def do_with(self, items, body, env):
        if not items:
            return self.block(body, env)
        m = self.ev(items[0].context_expr, env)
        if not hasattr(m, '__exit__') or has_sym(m):
            raise Unsupported('context manager')
        v = self.call(m.__enter__, ())
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        try:
            self.do_with(items[1:], body, env)
        except (_Break, _Continue, _Return, Unsupported, NeedFork):
            self.call(m.__exit__, (None, None, None))
            raise
        except Exception as ex:
            if not self.call(m.__exit__, (type(ex), ex, ex.__traceback__)):
                raise
        else:
            self.call(m.__exit__, (None, None, None))

    def matches(self, p, v, env):
        t = type(p)
        if t is ast.MatchValue:
            return self.truth(v == self.ev(p.value, env))
        if t is ast.MatchSingleton:
            return v is p.value
        if t is ast.MatchOr:
            return any(self.matches(q, v, env) for q in p.patterns)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                J.touch(env)
                env[p.name] = v
            return True
        if t is ast.MatchSequence and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            return isinstance(v, (tuple, list)) and len(v) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, v))
        raise Unsupported('pattern')

    def truth(self, v):
        if isinstance(v, SBase):
            return bool(v)
        if isinstance(v, (list, tuple, dict, str, set, bytes, bytearray)):
            return len(v) > 0
        return bool(v)

    def do_if(self, s, env):
        c = self.ev(s.test, env)
        if not isinstance(c, SBase):
            self.block(s.body if self.truth(c) else s.orelse, env)
            return
        cz = z3.simplify(zbool(c))
        if z3.is_true(cz):
            return self.block(s.body, env)
        if z3.is_false(cz):
            return self.block(s.orelse, env)
        if not _has_ban(s.body) and not _has_ban(s.orelse) and self.mfkey(s) not in self.merge_fail:
            if self.try_merge(s, cz, env):
                return
        m = self.returns_merged(s)
        if m is not None and self.mfkey(s) not in self.merge_fail:
            # both sides end the function: join the two results
            if self.try_merge(m, cz, env, s):
                raise _Return(env.pop('$ret'))
        if C.branch(cz):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def mfkey(self, s):
        return (id(s), repr(C.prefix[:C.pos]), self.steps) if self.merging else None

    def returns_merged(self, s):
        """the statement with each final return replaced by an assignment"""
        k = id(s)
        if k not in RETURNING:
            m = None
            if s.body and s.orelse and all(isinstance(b[-1], ast.Return) and b[-1].value is not None and not _has_ban(b[:-1]) for b in (s.body, s.orelse)):
                def swap(b):
                    r = b[-1]
                    return b[:-1]+[ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name('$ret', ast.Store()), r)], value=r.value), r)]
                m = ast.copy_location(ast.If(s.test, swap(s.body), swap(s.orelse)), s)
            RETURNING[k] = (s, m)
        return RETURNING[k][1]

    def try_merge(self, s, cz, env, orig=None):
        """execute both sides and join their effects"""
        frame = {}
        J.frames.append(frame)
        J.touch(env)
        live = set()
        LIVE_NOW.append(live)
        sts = []
        try:
            for cond, body in ((cz, s.body), (z3.Not(cz), s.orelse)):
                C.push(cond)
                try:
                    feas = C.check()
                    if feas == 'unsat':
                        raise NeedFork('decided')
                    self.block(body, env)
                finally:
                    C.pop()
                st = {k: (c, J.snap(c)) for k, (c, _) in frame.items()}
                sts.append(st)
                for k, (c, sn) in frame.items():
                    J.restore(c, sn)
            new = []
            for k, (c, base) in frame.items():
                a = sts[0].get(k, (c, base))[1]
                b = sts[1].get(k, (c, base))[1]
                new.append((c, J.merge(cz, c, a, b, env=isinstance(c, Env))))
            for c, v in new:
                J.restore(c, v)
            return True
        except (NeedFork, ValueError, KeyError, IndexError, TypeError, ZeroDivisionError, AttributeError, OverflowError):
            for k, (c, sn) in frame.items():
                J.restore(c, sn)
            self.merge_fail[self.mfkey(orig or s)] = True
            if C.merge_depth:
                raise NeedFork('nested')
            return False
        finally:
            J.frames.pop()
            LIVE_NOW.pop()

    def find_loopspec(self, s, env):
        specs = LOOPS.get((env.fn[0], env.fn[1]))
        if not specs:
            return None
        for sp in specs:
            if sp.match is None or sp.match(s, env):
                return sp
        return None

    def do_for(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, SymRange) or hasattr(it, 'sym_len'):
            sp = self.find_loopspec(s, env)
            if sp is not None:
                return self.cut_for(s, it, sp, env)
            if isinstance(it, SymRange):
                # walk the range, testing the bound before every iteration
                lo, hi, st = it.lo, it.hi, it.step
                if is_sym(st):
                    st = C.concretize(st)
                k = lo
                broke = False
                n = 0
                while self.truth(k < hi if st > 0 else k > hi):
                    n += 1
                    if n > 800:
                        raise Unsupported('loop bound not enumerable')
                    self.assign(s.target, k, env)
                    try:
                        self.block(s.body, env)
                    except _Break:
                        broke = True
                        break
                    except _Continue:
                        pass
                    k = k + st
                if not broke:
                    self.block(s.orelse, env)
                return
            it = it.sym_iter()
        if isinstance(it, SBase):
            raise TypeError('not iterable')
        broke = False
        src = it
        for v in (list(src) if isinstance(src, (dict, type({}.keys()), type({}.items()), type({}.values()))) else src):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                pass
        if not broke:
            self.block(s.orelse, env)

    def _oblig(self, name, cond):
        self.on_obligation(name, cond)

    def _havoc_locals(self, stmts, env, sp, skip=()):
        for n in sorted(assigned_names(stmts)):
            if n in skip:
                continue
            J.touch(env)
            if n in sp.types:
                env[n] = sp.types[n](C, n)
                continue
            v = env.get(n, Undef)
            if v is Undef:
                continue
            if isinstance(v, (bool, SBool)):
                env[n] = SBool(z3.Bool(C.fresh('h_'+n)))
            elif isinstance(v, (int, SInt, np.integer)):
                env[n] = SInt(z3.Int(C.fresh('h_'+n)))
            elif isinstance(v, (float, SReal, np.floating)):
                env[n] = SReal(z3.Real(C.fresh('h_'+n)), z3.Bool(C.fresh('hn_'+n)))
            else:
                env[n] = Undef

    def _arrays(self, env):
        return {n: (v, list(v.flat)) for n, v in env.items() if isinstance(v, np.ndarray) and v.dtype == object}

    def _kept(self, env, before, sp):
        """arrays the annotation does not replace, after the havoc"""
        now, out = self._arrays(env), {}
        for n, (v, el) in now.items():
            if n in sp.touch or n in before and (before[n][0] is not v or any(a is not b for a, b in zip(before[n][1], el))):
                continue
            out[n] = (v, el)
        return out

    def _frame(self, kept):
        for n, (v, el) in kept.items():
            if any(a is not b for a, b in zip(el, v.flat)):
                raise Unsupported('the loop changes %s, which its annotation does not mention' % n)

    def cut_for(self, s, it, sp, env):
        """loop cut at its invariant"""
        if C.merge_depth:
            raise NeedFork('loop cut in merge')
        if isinstance(it, SymRange):
            lo, hi = it.lo, it.hi
            if it.step != 1:
                raise Unsupported('step in annotated loop')
            getk = lambda k: k
        else:
            lo, hi = 0, it.sym_len
            getk = it.sym_get
        n = hi - lo
        label = '%s:%s' % (env.fn[1], sp.label)
        for nm, c in sp.inv(LoopEnv(self, env, 0, n)):
            self._oblig('%s.%s established' % (label, nm), c)
        arb = C.branch(z3.Bool(C.fresh('cut')))
        self._havoc_locals(s.body + [ast.Assign([s.target], ast.Constant(0))], env, sp)
        k = SInt(z3.Int(C.fresh('k')))
        le = LoopEnv(self, env, k, n)
        before = self._arrays(env)
        if sp.havoc:
            sp.havoc(le)
        kept = self._kept(env, before, sp)
        if arb:
            C.assume(z3.And(k.z >= 0, zbool(k < n)))
            for nm, c in sp.inv(le):
                C.assume(zbool(c))
            self.assign(s.target, getk(lo + k), env)
            broke = False
            try:
                self.block(s.body, env)
            except _Continue:
                pass
            except _Break:
                broke = True
            self._frame(kept)
            if not broke:
                for nm, c in sp.inv(LoopEnv(self, env, k+1, n)):
                    self._oblig('%s.%s preserved' % (label, nm), c)
                raise PathEnd('loop body checked')
            return
        nn = n
        C.assume(z3.Or(z3.And(zbool(nn >= 0), zbool(k == nn)), z3.And(zbool(nn < 0), k.z == 0)))
        for nm, c in sp.inv(le):
            C.assume(zbool(c))
        self.block(s.orelse, env)

    def do_while(self, s, env):
        sp = self.find_loopspec(s, env)
        if sp is not None:
            return self.cut_while(s, sp, env)
        n = 0
        while True:
            n += 1
            if n > 3000:
                raise Unsupported('while loop bound')
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass

    def cut_while(self, s, sp, env):
        label = '%s:%s' % (env.fn[1], sp.label)
        for nm, c in sp.inv(LoopEnv(self, env, None, None)):
            self._oblig('%s.%s established' % (label, nm), c)
        arb = C.branch(z3.Bool(C.fresh('cut')))
        self._havoc_locals(s.body, env, sp)
        le = LoopEnv(self, env, None, None)
        before = self._arrays(env)
        if sp.havoc:
            sp.havoc(le)
        kept = self._kept(env, before, sp)
        for nm, c in sp.inv(le):
            C.assume(zbool(c))
        t = self.ev(s.test, env)
        if arb:
            C.assume(zbool(t))
            try:
                self.block(s.body, env)
            except _Continue:
                pass
            except _Break:
                self._frame(kept)
                return
            self._frame(kept)
            for nm, c in sp.inv(LoopEnv(self, env, None, None)):
                self._oblig('%s.%s preserved' % (label, nm), c)
            raise PathEnd('loop body checked')
        C.assume(z3.Not(zbool(t)))
        self.block(s.orelse, env)

    def do_try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except (_Break, _Continue, _Return, Unsupported, NeedFork):
                raise
            except Exception as ex:
                for h in s.handlers:
                    et = Exception if h.type is None else self.ev(h.type, env)
                    if isinstance(ex, et):
                        if h.name:
                            env[h.name] = ex
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    # ---------------------------------------------------------- assignment
    def assign(self, tg, v, env):
        t = type(tg)
        if t is ast.Name:
            if tg.id in env.nonl:
                e = env.parent
                while e is not None and tg.id not in e:
                    e = e.parent
                if e is None:
                    raise Unsupported('nonlocal')
                env = e
            J.touch(env)
            env[tg.id] = v
        elif t in (ast.Tuple, ast.List):
            vs = list(v) if not hasattr(v, 'sym_iter') else list(v.sym_iter())
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                nafter = len(tg.elts)-i-1
                parts = vs[:i]+[vs[i:len(vs)-nafter]]+vs[len(vs)-nafter:]
                for e, x in zip(tg.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vs) != len(tg.elts):
                raise ValueError('unpack: expected %d, got %d' % (len(tg.elts), len(vs)))
            for e, x in zip(tg.elts, vs):
                self.assign(e, x, env)
        elif t is ast.Subscript:
            o = self.ev(tg.value, env)
            i = self.ev_index(tg.slice, env)
            self.setitem(o, i, v)
        elif t is ast.Attribute:
            o = self.ev(tg.value, env)
            if isinstance(o, type):
                raise Unsupported('class attribute assignment')
            J.touch(o)
            setattr(o, tg.attr, v)
        else:
            raise Unsupported('assign target')

    def augassign(self, s, env):
        op = _BIN[type(s.op)]
        tg = s.target
        r = None
        if isinstance(tg, ast.Name):
            cur = self.name(tg.id, env)
            new = self.aug(op, s.op, cur, self.ev(s.value, env))
            J.touch(env)
            env[tg.id] = new
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, env)
            cur = self.getattr(o, tg.attr)
            new = self.aug(op, s.op, cur, self.ev(s.value, env))
            J.touch(o)
            setattr(o, tg.attr, new)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, env)
            i = self.ev_index(tg.slice, env)
            cur = self.getitem(o, i)
            new = self.aug(op, s.op, cur, self.ev(s.value, env))
            self.setitem(o, i, new)
        else:
            raise Unsupported('augassign')

    def aug(self, op, opnode, cur, v):
        if isinstance(cur, np.ndarray):
            # in-place on arrays: aliases observe the change
            r = self.binop(op, cur, v)
            if isinstance(r, np.ndarray) and r.shape == cur.shape:
                J.touch(base_of(cur))
                J.touch(cur)
                self.setitem(cur, Ellipsis, r)
                return cur
            return r
        if isinstance(cur, list) and isinstance(opnode, ast.Add):
            J.touch(cur)
            cur.extend(v)
            return cur
        return self.binop(op, cur, v)

    # --------------------------------------------------------- expressions
    def name(self, n, env):
        e = env
        while e is not None:
            if n in e:
                v = dict.__getitem__(e, n)
                if v is Undef:
                    raise NeedFork('possibly unbound local %s' % n) if C.merge_depth else Unsupported('possibly unbound local %s' % n)
                return v
            e = e.parent
        g = env.globs
        if n in g:
            return g[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise NameError("name '%s' is not defined" % n)

    def ev(self, e, env):
        self.steps += 1
        t = type(e)
        f = _EV.get(t)
        if f is None:
            raise Unsupported('expression %s' % t.__name__)
        return f(self, e, env)

    def e_const(self, e, env):
        return e.value

    def e_name(self, e, env):
        return self.name(e.id, env)

    def e_attr(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def getattr(self, o, a):
        if isinstance(o, SuperProxy):
            mro = type(o.obj).__mro__
            i = mro.index(o.cls)
            for k in mro[i+1:]:
                if a in k.__dict__:
                    f = k.__dict__[a]
                    if isinstance(f, types.FunctionType):
                        return types.MethodType(f, o.obj)
                    if a == '__init__':
                        return lambda *x, **y: None
                    return f
            raise AttributeError(a)
        if isinstance(o, np.ndarray) and o.dtype == object and a in ('all', 'any'):
            return ArrRed(o, a)
        return getattr(o, a)

    def e_binop(self, e, env):
        return self.binop(_BIN[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Undef if isinstance(Undef, type) else ()):
            raise NeedFork('undef')
        if op is operator.matmul:
            return matmul(a, b)
        if op is operator.mod and isinstance(a, str):
            return SymText('<fmt>') if has_sym(b) else a % b
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = lift_arr(a), lift_arr(b)
            return op(a, b)
        if op is operator.mul and isinstance(a, (list, str, bytes, bytearray)) and is_sym(b):
            b = C.concretize(b)
        if op is operator.mul and isinstance(b, (list, str)) and is_sym(a):
            a = C.concretize(a)
        # a symbolic real stands for a numpy scalar, which broadcasts over lists
        if isinstance(a, SReal) and isinstance(b, list):
            return op(a, lift_arr(np.array(b, dtype=object)))
        if isinstance(b, SReal) and isinstance(a, list):
            return op(lift_arr(np.array(a, dtype=object)), b)
        return op(a, b)

    def e_unary(self, e, env):
        v = self.ev(e.operand, env)
        t = type(e.op)
        if t is ast.Not:
            if isinstance(v, SBase):
                return mkbool(z3.Not(zbool(v)))
            return not self.truth(v)
        if t is ast.USub:
            return -v
        if t is ast.UAdd:
            return +v
        return ~v

    def e_bool(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            last = k == len(e.values)-1
            if acc is not None:
                # symbolic so far: evaluate the rest without forking when pure
                if not pure_expr(x):
                    if C.branch(zbool(acc)) is not isand:
                        return not isand
                    acc = None
                    v = self.ev(x, env)
                else:
                    C.push(zbool(acc) if isand else z3.Not(zbool(acc)))
                    try:
                        try:
                            v = self.ev(x, env)
                        finally:
                            C.pop()
                    except (NeedFork, ZeroDivisionError, KeyError, IndexError, TypeError, AttributeError, ValueError):
                        if C.branch(zbool(acc)) is not isand:
                            return not isand
                        acc = None
                        v = self.ev(x, env)
            else:
                v = self.ev(x, env)
            if isinstance(v, (SBool, SInt, SReal)) or acc is not None and isinstance(v, (bool, np.bool_, int, float)):
                if not isinstance(v, (SBool, bool, np.bool_)) and not last and acc is None and False:
                    pass
                vb = mkbool(zbool(v))
                if acc is None:
                    if last and not isinstance(v, SBool):
                        return v
                    acc = vb
                else:
                    acc = mkbool(z3.And(zbool(acc), zbool(vb)) if isand else z3.Or(zbool(acc), zbool(vb)))
                if isinstance(acc, bool):
                    if acc is not isand:
                        return acc
                    if last:
                        return acc
                    acc = None
                continue
            if acc is not None:
                # non boolean operand after a symbolic one
                if C.branch(zbool(acc)) is not isand:
                    return not isand
                acc = None
            if last:
                return v
            if self.truth(v) is not isand:
                return v
        return acc if acc is not None else isand

    def e_compare(self, e, env):
        left = self.ev(e.left, env)
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            r = self.cmp(op, left, right)
            if acc is None:
                acc = r
            else:
                if isinstance(acc, SBase) or isinstance(r, SBase):
                    acc = mkbool(z3.And(zbool(acc), zbool(r)))
                else:
                    acc = acc and r
            if acc is False:
                return False
            left = right
        return acc

    def cmp(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return a is b if not (is_sym(a) or is_sym(b)) else (a is b)
        if t is ast.IsNot:
            return a is not b
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            r = self.contains(b, a)
            return mkbool(z3.Not(zbool(r))) if isinstance(r, SBase) else not r
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = lift_arr(a), lift_arr(b)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
             ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
        if type(a).__module__.startswith('cssrlib') and not isinstance(a, Enum):
            nm = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.LtE: '__le__',
                  ast.Gt: '__gt__', ast.GtE: '__ge__'}[t]
            m = getattr(type(a), nm, None)
            if isinstance(m, types.FunctionType) and self._is_repo(m):
                return self.call_func(m, (a, b), {})
            if nm == '__ne__':
                m = getattr(type(a), '__eq__', None)
                if isinstance(m, types.FunctionType) and self._is_repo(m):
                    r = self.call_func(m, (a, b), {})
                    return mkbool(z3.Not(zbool(r))) if isinstance(r, SBase) else not r
        return f(a, b)

    def contains(self, cont, x):
        if hasattr(cont, 'v_contains'):
            return cont.v_contains(self, x)
        if isinstance(cont, dict):
            if is_sym(x) or any(is_sym(k) for k in cont):
                return self._any_eq(list(cont), x)
            return x in cont
        if isinstance(cont, type({}.keys())):
            ks = list(cont)
            if is_sym(x) or any(is_sym(k) for k in ks):
                return self._any_eq(ks, x)
            return x in cont
        if isinstance(cont, (list, tuple, set, frozenset, range)):
            if is_sym(x) or any(is_sym(k) for k in cont):
                return self._any_eq(list(cont), x)
            return x in cont
        if isinstance(cont, np.ndarray):
            return self._any_eq(list(cont.ravel()), x)
        if isinstance(cont, str):
            if is_sym(x):
                raise Unsupported('in str')
            return x in cont
        if isinstance(cont, type) and issubclass(cont, Enum) and is_sym(x):
            return self._any_eq([int(m) for m in cont], x)
        return x in cont

    def _any_eq(self, ks, x):
        zs = []
        for k in ks:
            r = (x == k)
            if isinstance(r, SBase):
                zs.append(zbool(r))
            elif r:
                return True
        if not zs:
            return False
        return mkbool(z3.Or(zs))

    def dict_find(self, d, key):
        """the stored key equal to key, or _NOKEY"""
        if not is_sym(key):
            try:
                if key in d:
                    return key
            except TypeError:
                raise
            cand = [k for k in d if is_sym(k)]
        else:
            if key in d:      # identical object
                return key
            cand = list(d)
        cs = []
        for k in cand:
            r = (key == k)
            if r is True:
                return k
            if isinstance(r, SBase):
                cs.append((k, r))
        for k, r in cs:
            if C.branch(zbool(r)):
                return k
        return _NOKEY

    def cidx(self, i):
        if isinstance(i, SBase):
            return C.concretize(i)
        if isinstance(i, tuple):
            return tuple(self.cidx(x) for x in i)
        if isinstance(i, slice):
            f = lambda x: C.concretize(x) if isinstance(x, SBase) else x
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, np.ndarray) and i.dtype == object:
            l = [bool(x) if isinstance(x, (SBool, bool, np.bool_)) else C.concretize(x) if is_sym(x) else int(x) for x in i.ravel()]
            a = np.array(l).reshape(i.shape) if l else np.zeros(i.shape, dtype=int)
            return a
        if isinstance(i, list) and any(is_sym(x) for x in i):
            return [self.cidx(x) for x in i]
        return i

    def getitem(self, o, i):
        if hasattr(o, 'v_getitem'):
            return o.v_getitem(self, i)
        if isinstance(o, dict):
            k = self.dict_find(o, i)
            if k is _NOKEY:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    v = self.call(o.default_factory, ())
                    self.setitem(o, i, v)
                    return v
                if isinstance(o, collections.Counter):
                    return 0
                raise KeyError(i if not is_sym(i) else str(i))
            return o[k]
        if isinstance(i, SInt) and isinstance(o, (list, tuple, np.ndarray)) and len(o) and \
                all(isinstance(x, (int, float, SInt, SReal, np.integer, np.floating)) for x in o) and not C.merge_depth < 0:
            return self.sym_select(list(o), i)
        if isinstance(o, SBase):
            raise Unsupported('subscript of a scalar')
        return o[self.cidx(i)]

    def sym_select(self, lst, i):
        n = len(lst)
        zi = i.z
        inb = z3.And(zi >= -n, zi < n)
        if not C.branch(inb):
            raise IndexError('list index out of range')
        neg = z3.And(zi < 0)
        if C.check(neg) != 'unsat':
            if C.branch(neg):
                zi = zi + n
        r = lst[n-1]
        for k in range(n-2, -1, -1):
            if lst[k] is r:
                continue
            r = merge_val(z3.simplify(zi == k), lst[k], r)
        return r

    def setitem(self, o, i, v):
        if hasattr(o, 'v_setitem'):
            J.touch(o)
            return o.v_setitem(self, i, v)
        J.touch(o)
        if isinstance(o, dict):
            k = self.dict_find(o, i)
            o[i if k is _NOKEY else k] = v
            return
        if isinstance(o, np.ndarray):
            J.touch(base_of(o))
            if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
                v = lift_arr(np.array(v, dtype=object) if not isinstance(v, np.ndarray) else v)
            kind = getattr(o, 'kind', None)
            if o.dtype != object:
                if has_sym(v):
                    raise Unsupported('store of a symbolic value into a native array')
                o[self.cidx(i)] = denorm(v)
                return
            if kind:
                v = coerce(v, kind)
            if isinstance(i, SInt) and o.ndim == 1 and not isinstance(v, np.ndarray):
                n = len(o)
                try:
                    idx = C.concretize(i) if C.check() == 'sat' and False else None
                except Exception:
                    idx = None
                inb = z3.And(i.z >= -n, i.z < n)
                if not C.branch(inb):
                    raise IndexError('index out of bounds')
                if n <= 128:
                    for k in range(n):
                        c = z3.simplify(z3.Or(i.z == k, i.z == k-n))
                        if z3.is_false(c):
                            continue
                        o[k] = merge_val(c, v, o[k])
                    return
            o[self.cidx(i)] = v
            return
        if isinstance(o, bytearray) and has_sym(v):
            raise Unsupported('symbolic byte store')
        o[self.cidx(i)] = v

    def ev_index(self, s, env):
        return self.ev(s, env)

    def e_subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev_index(e.slice, env))

    def e_slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_list(self, e, env):
        return self._elts(e.elts, env)

    def e_set(self, e, env):
        l = self._elts(e.elts, env)
        if any(is_sym(x) for x in l):
            return l
        return set(l)

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_ifexp(self, e, env):
        c = self.ev(e.test, env)
        if not isinstance(c, SBase):
            return self.ev(e.body if self.truth(c) else e.orelse, env)
        cz = z3.simplify(zbool(c))
        if z3.is_true(cz):
            return self.ev(e.body, env)
        if z3.is_false(cz):
            return self.ev(e.orelse, env)
        if pure_expr(e.body) and pure_expr(e.orelse):
            try:
                C.push(cz)
                try:
                    a = self.ev(e.body, env)
                finally:
                    C.pop()
                C.push(z3.Not(cz))
                try:
                    b = self.ev(e.orelse, env)
                finally:
                    C.pop()
                return merge_val(cz, a, b)
            except (NeedFork, ZeroDivisionError, KeyError, IndexError, ValueError, TypeError):
                if C.merge_depth:
                    raise NeedFork('ifexp')
        return self.ev(e.body if C.branch(cz) else e.orelse, env)

    def e_call(self, e, env):
        # zero argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            m = env.globs
            cls = m
            for p in env.fn[2].split('.'):
                cls = cls[p] if isinstance(cls, dict) else getattr(cls, p)
            return SuperProxy(cls, env['self'])
        fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(list(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(fn, ArrRed):
            return fn(self, args, kw)
        return self.call(fn, args, kw)

    def e_comp(self, e, env, elt=None):
        out = []
        sub = Env()
        sub.parent, sub.fn, sub.globs, sub.nonl, sub.live = env, env.fn, env.globs, set(), None

        def rec(i):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    out.append((self.ev(e.key, sub), self.ev(e.value, sub)))
                else:
                    out.append(self.ev(e.elt, sub))
                return
            g = e.generators[i]
            it = self.ev(g.iter, sub if i else env)
            if isinstance(it, SymRange):
                n = C.concretize(it.hi)
                it = range(int(C.concretize(it.lo)), n)
            elif hasattr(it, 'sym_iter'):
                it = it.sym_iter()
            for v in it:
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    rec(i+1)
        rec(0)
        if isinstance(e, ast.DictComp):
            d = {}
            for k, v in out:
                self.setitem(d, k, v)
            return d
        if isinstance(e, ast.SetComp):
            return set(out) if not any(is_sym(x) for x in out) else out
        if isinstance(e, ast.GeneratorExp):
            return iter(out)
        return out

    def e_lambda(self, e, env):
        return Closure(self, e, env, env.fn[0], env.fn[2],
                       tuple(self.ev(d, env) for d in e.args.defaults), {})

    def e_joined(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                if has_sym(x):
                    parts.append(SymText('<sym>'))
                else:
                    fs = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                    if v.conversion == 114:
                        x = repr(x)
                    elif v.conversion == 115:
                        x = str(x)
                    parts.append(format(x, fs) if not isinstance(x, SymText) else x)
        r = ''.join(parts)
        return SymText(r) if any(isinstance(x, SymText) for x in parts) else r

    def e_named(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v


class _NoKey:
    pass


_NOKEY = _NoKey()


class ArrRed:
    def __init__(self, o, a):
        self.o, self.a = o, a

    def __call__(self, interp, args, kw):
        zs = []
        for x in self.o.ravel():
            if is_sym(x):
                zs.append(zbool(x))
            elif self.a == 'all' and not x:
                return False
            elif self.a == 'any' and x:
                return True
        if not zs:
            return self.a == 'all'
        return mkbool(z3.And(zs) if self.a == 'all' else z3.Or(zs))


_EV = {ast.Constant: Interp.e_const, ast.Name: Interp.e_name, ast.Attribute: Interp.e_attr,
       ast.BinOp: Interp.e_binop, ast.UnaryOp: Interp.e_unary, ast.BoolOp: Interp.e_bool,
       ast.Compare: Interp.e_compare, ast.Subscript: Interp.e_subscript, ast.Slice: Interp.e_slice,
       ast.Tuple: Interp.e_tuple, ast.List: Interp.e_list, ast.Set: Interp.e_set,
       ast.Dict: Interp.e_dict, ast.IfExp: Interp.e_ifexp, ast.Call: Interp.e_call,
       ast.ListComp: Interp.e_comp, ast.SetComp: Interp.e_comp, ast.DictComp: Interp.e_comp,
       ast.GeneratorExp: Interp.e_comp, ast.Lambda: Interp.e_lambda,
       ast.JoinedStr: Interp.e_joined, ast.NamedExpr: Interp.e_named}

_PURE_CALLS = {'abs', 'int', 'float', 'len', 'min', 'max', 'isnan', 'floor', 'round', 'sqrt', 'sin', 'cos',
               'fabs', 'timediff', 'pow'}


def pure_expr(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm not in _PURE_CALLS:
                return False
        if isinstance(n, (ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp)):
            return False
    return True


# ------------------------------------------------------------------- arrays
class VArr(np.ndarray):
    """object array that remembers the dtype kind it stands for"""
    def __new__(cls, shape, kind='f'):
        o = np.empty(shape, dtype=object).view(cls)
        o.kind = kind
        return o

    def __array_finalize__(self, o):
        self.kind = getattr(o, 'kind', None)

    def __array_wrap__(self, out, context=None, return_scalar=False):
        if isinstance(out, np.ndarray) and out.shape == ():
            return out[()]
        if isinstance(out, np.ndarray):
            r = out.view(VArr)
            r.kind = None
            return r
        return out

    def __reduce__(self):
        return (np.array, (np.asarray(self).tolist(),))


def mkarr(x, kind=None):
    a = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x.astype(object)
    r = a.view(VArr)
    r.kind = kind
    return r


def base_of(a):
    while isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
        a = a.base
    return a


def coerce(v, kind):
    if isinstance(v, np.ndarray):
        out = v.astype(object)
        for i in np.ndindex(out.shape):
            out[i] = coerce(out[i], kind)
        return out
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        v = v.item()
    if kind == 'f':
        if isinstance(v, SInt):
            return SReal(z3.ToReal(v.z))
        if isinstance(v, SBool):
            return SReal(z3.If(v.z, z3.RealVal(1), z3.RealVal(0)))
        if isinstance(v, (int, bool)):
            return float(v)
        return v
    if kind == 'i':
        if isinstance(v, (SReal, SBool)):
            return s_trunc(v)
        if is_sym(v):
            return v
        return int(v)
    if kind == 'b':
        if isinstance(v, SBase):
            return mkbool(zbool(v))
        return bool(v)
    return v


def lift_arr(a):
    if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind in 'fiub':
        k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}[a.dtype.kind]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = a[i].item()
        r = out.view(VArr)
        r.kind = k
        return r
    return a


def denorm(a):
    """object array with concrete contents -> ordinary array (for native calls)"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        if not any(is_sym(x) for x in a.ravel()):
            k = getattr(a, 'kind', None)
            if k is None:
                k = 'i' if a.size and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in a.ravel()) else \
                    'b' if a.size and all(isinstance(x, (bool, np.bool_)) for x in a.ravel()) else 'f'
            try:
                return np.array(np.asarray(a).tolist(), dtype={'f': float, 'i': int, 'b': bool}[k]).reshape(a.shape)
            except (TypeError, ValueError):
                return a
    return a


def has_sym(v, d=0):
    if is_sym(v):
        return True
    if hasattr(v, 'v_symbolic'):
        return True
    if isinstance(v, np.ndarray):
        return v.dtype == object and any(is_sym(x) for x in v.ravel())
    if isinstance(v, (list, tuple, set)) and d < 3:
        return any(has_sym(x, d+1) for x in v)
    if isinstance(v, dict) and d < 3:
        return any(has_sym(x, d+1) for x in v.values())
    return False


def matmul(a, b):
    a = lift_arr(np.asarray(a) if not isinstance(a, np.ndarray) else a)
    b = lift_arr(np.asarray(b) if not isinstance(b, np.ndarray) else b)
    r = dot(a, b)
    return r


def dot(a, b):
    if a.ndim == 1 and b.ndim == 1:
        s = 0.0
        if len(a) != len(b):
            raise ValueError('shapes')
        for x, y in zip(a, b):
            s = s + x*y
        return s
    a2 = a if a.ndim == 2 else a.reshape(1, -1)
    b2 = b if b.ndim == 2 else b.reshape(-1, 1)
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('matmul: shape mismatch %s %s' % (a.shape, b.shape))
    out = VArr((a2.shape[0], b2.shape[1]))
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            s = 0.0
            for k in range(a2.shape[1]):
                x, y = a2[i, k], b2[k, j]
                if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
                    continue
                s = s + x*y
            out[i, j] = s
    if a.ndim == 1 and b.ndim == 2:
        return out[0]
    if a.ndim == 2 and b.ndim == 1:
        return out[:, 0]
    return out


def _dummy():
    pass
