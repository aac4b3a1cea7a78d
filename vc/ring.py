"""Polynomial normal forms of z3 real terms, modulo sin^2+cos^2=1, sqrt(x)^2=x
and i/i=1.  Decides ring identities that the SMT solver only finds by luck."""
from fractions import Fraction
import z3

MAXMON = 4000
EPS = Fraction(1, 10**12)      # coefficients that differ by rounding of constants are identified


class TooBig(Exception):
    pass


class Ring:
    def __init__(self):
        self.atoms = {}      # id -> (index, term)
        self.terms = []
        self.memo = {}
        self.invs = {}       # atom index of an inverse -> polynomial it inverts
        self.rules = {}      # atom index -> polynomial of its square

    def canon(self, p):
        """hashable form of a polynomial with a positive leading coefficient, and its sign"""
        it = sorted(p.items())
        if not it:
            return (), 1
        sg = 1 if it[-1][1] > 0 else -1
        return tuple((m, float('%.11g' % float(sg*c))) for m, c in it), sg

    def index(self, key, t):
        if key not in self.atoms:
            self.atoms[key] = len(self.terms)
            self.terms.append(t)
        return self.atoms[key]

    def atom(self, t):
        """(index, sign): uninterpreted functions are identified up to equal arguments"""
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.RealSort() and all(c.sort() == z3.RealSort() for c in t.children()):
            n = t.decl().name()
            ps = [self.poly(c) for c in t.children()]
            if n in ('sin', 'cos'):
                k, sg = self.canon(ps[0])
                i = self.index((n, k), t)
                if n == 'sin':
                    if i not in self.rules:
                        j = self.index(('cos', k), t)
                        self.rules[i] = {(): Fraction(1), ((j, 2),): Fraction(-1)}
                    return i, sg
                return i, 1
            key = (n,)+tuple((self.canon(q)) for q in ps)
            new = key not in self.atoms
            i = self.index(key, t)
            if n == 'sqrt' and new:
                self.rules[i] = ps[0]
            return i, 1
        return self.index(t.get_id(), t), 1

    def var(self, t):
        i, sg = self.atom(t)
        return {((i, 1),): Fraction(sg)}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            o = r.get(m, 0)
            v = o+s*c
            if v and (not o or abs(v) > EPS*abs(c)):
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p)*len(q) > 40*MAXMON:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0)+e
                m = tuple(sorted((a, e) for a, e in d.items() if e))
                o = r.get(m, 0)
                v = o+c1*c2
                if v and (not o or abs(v) > EPS*abs(o)):
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > MAXMON:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.rules:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if hit is None:
                return p
            m, a, e = hit
            c = p[m]
            p = dict(p)
            del p[m]
            rest = {tuple((x, y) if x != a else (x, y-2) for x, y in m if x != a or y > 2): c}
            q = {}
            for m1, c1 in rest.items():
                for m2, c2 in self.rules[a].items():
                    d = dict(m1)
                    for x, y in m2:
                        d[x] = d.get(x, 0)+y
                    k = tuple(sorted((x, y) for x, y in d.items() if y))
                    q[k] = q.get(k, 0)+c1*c2
            p = self.add(p, {k: v for k, v in q.items() if v})

    def poly(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._poly(t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): f} if f else {}
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.poly(c))
                if len(r) > MAXMON:
                    raise TooBig()
            return r
        if d == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.add({}, self.poly(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.poly(c))
            return r
        if d == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if d == z3.Z3_OP_DIV:
            p, q = self.poly(ch[0]), self.poly(ch[1])
            if set(q) == {()}:
                return {m: c/q[()] for m, c in p.items()}
            return self.mul(p, self.invt(ch[1]))
        if d == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            n = int(ch[1].as_fraction()) if z3.is_rational_value(ch[1]) else ch[1].as_long()
            if 0 <= n <= 8:
                r = {(): Fraction(1)}
                for _ in range(n):
                    r = self.mul(r, self.poly(ch[0]))
                return r
        return self.var(t)

    def invt(self, t):
        """inverse of a term: a product is inverted factor by factor"""
        d = t.decl().kind()
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                r = self.mul(r, self.invt(c))
            return r
        if d == z3.Z3_OP_DIV:
            return self.mul(self.invt(t.arg(0)), self.poly(t.arg(1)))
        q = self.poly(t)
        if not q:
            return self.var(z3.RealVal(1)/t)
        return self.inv(t, q)

    def inv(self, t, q):
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple((a, -e) for a, e in m): 1/c}
        k, sg = self.canon(q)
        lead = abs(sorted(q.items())[-1][1]) if k else Fraction(1)
        k = tuple((m, float('%.11g' % (c/k[-1][1]))) for m, c in k)
        i = self.index(('inv', k), t)
        self.invs[i] = {m: c*sg/lead for m, c in q.items()}
        return {((i, 1),): sg/lead} if lead != 1 else {((i, 1),): Fraction(sg)}


def constant_of(t):
    """Fraction if the real term t is identically constant, else None"""
    try:
        p = Ring().poly(t)
    except (TooBig, RecursionError):
        return None
    if not p:
        return Fraction(0)
    if set(p) == {()}:
        return p[()]
    return None


def bound_of(t, bounds):
    """upper bound of |t| by interval arithmetic on its normal form, or None;
    bounds: name -> (lo, hi)"""
    R = Ring()
    try:
        p = R.poly(t)
    except (TooBig, RecursionError):
        return None
    lo = hi = Fraction(0)
    for m, c in p.items():
        a, b = Fraction(1), Fraction(1)
        for i, e in m:
            x = R.terms[i]
            if e < 0:
                return None
            n = x.decl().name()
            if x.num_args() == 0 and n in bounds:
                l, h = bounds[n]
            elif x.num_args() == 1 and n in ('sin', 'cos'):
                l, h = Fraction(-1), Fraction(1)
            else:
                return None
            v = (l**e, h**e)
            if e % 2 == 0:
                v = (Fraction(0) if l <= 0 <= h else min(v), max(v))
            ps = [x*y for x in (a, b) for y in (min(v), max(v))]
            a, b = min(ps), max(ps)
        ps = (c*a, c*b)
        lo, hi = lo+min(ps), hi+max(ps)
    return max(abs(lo), abs(hi))


def small(t, limit=3000):
    """the term has at most limit nodes"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            return False
        todo.extend(x.children())
    return True


def toz3(R, p):
    """z3 term of a normal form, variables in a fixed order"""
    out = []
    key = lambda m: sorted((R.terms[a].sexpr(), e) for a, e in m)
    for m in sorted(p, key=key):
        c = p[m]
        num, den = [], []
        for a, e in sorted(m, key=lambda x: R.terms[x[0]].sexpr()):
            (num if e > 0 else den).extend([R.terms[a]]*abs(e))
        q = z3.Q(c.numerator, c.denominator)
        t = q if not num else num[0] if c == 1 else q*num[0]
        for x in num[1:]:
            t = t*x
        for x in den:
            t = t/x
        out.append(t)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def tidy(t):
    """normal form of a small real term; inverses of sums and rewritten
    functions are left alone"""
    if z3.is_rational_value(t) or not small(t, 400):
        return t
    R = Ring()
    try:
        p = R.poly(t)
    except (TooBig, RecursionError):
        return t
    if len(p) > 60 or any(isinstance(k, tuple) for k in R.atoms):
        return t
    return toz3(R, p)


def root(t, bounds):
    """positive square root of t when it is a perfect square of positive inputs"""
    R = Ring()
    try:
        p = R.poly(t)
    except (TooBig, RecursionError):
        return None
    if len(p) != 1:
        return None
    (m, c), = p.items()
    import math
    a, b = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
    if c <= 0 or a*a != c.numerator or b*b != c.denominator:
        return None
    q = {}
    for i, e in m:
        n = R.terms[i].decl().name()
        if e % 2 or R.terms[i].num_args() or n not in bounds or bounds[n][0] <= 0:
            return None
        q[i] = e//2
    return toz3(R, {tuple(sorted(q.items())): Fraction(a, b)})


def is_zero(t):
    """t vanishes identically wherever its denominators do not"""
    R = Ring()
    try:
        p = R.poly(t)
        for _ in range(8):
            if not p:
                return True
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if low:
                p = R.mul(p, {tuple(sorted((a, -e) for a, e in low.items())): Fraction(1)})
                continue
            i = max((a for m in p for a, e in m if a in R.invs), default=None)
            if i is None:
                return False
            n = max(e for m in p for a, e in m if a == i)
            r = {}
            for m, c in p.items():
                k = dict(m).get(i, 0)
                q = {tuple(x for x in m if x[0] != i): c}
                for _k in range(n-k):
                    q = R.mul(q, R.invs[i])
                r = R.add(r, q)
            p = r
    except (TooBig, RecursionError):
        pass
    return False
