"""L02 the search over integer vectors, by its loop invariant.

The levels n-1..k hold a partial integer vector.  At level j the integers
tried so far are the interval between zcond[j] and zcond[j]+step[j]-sign(step[j])
around the conditional estimate, in order of distance (zig-zag).  An integer
vector w is *pending* when it agrees with the current one above some level
j >= k and has an integer not yet tried at that level.  Invariant: every
integer vector is pending, or a stored candidate, or no nearer than the worst
stored candidate once the list is full; no stored candidate is pending."""
import z3
from vc.api import contract, And, Or, Not, Implies, Ite
from vc.interp import LoopSpec
from vc.sym import PathEnd, C, SReal, SInt, mkbool, zreal, zbool

F = ['mlambda:msearch', 'mlambda:estimILS']
BIG = 1e18
T = ('afixed', 'sqnorm', 'acond', 'zcond', 'left', 'step', 'S', 'dist', 'path')


def residuals(L, a, z):
    """residuals of the conditional estimates of an integer vector"""
    n = len(a)
    r = [None]*n
    for j in range(n-1, -1, -1):
        r[j] = a[j]-z[j]-sum((r[i]*L[i][j] for i in range(j+1, n)), 0)
    return r


def form(L, d, a, z):
    r = residuals(L, a, z)
    return sum((r[j]*r[j]/d[j] for j in range(len(a))), 0)


class Ghost:
    """residuals as named quantities"""

    def name(s, j, x):
        v = SReal(z3.Real(C.fresh('r%d' % j)))
        C.add(zreal(v) == zreal(x))           # a definition
        return v

    def residuals(s, L, a, z):
        n = len(a)
        r = [None]*n
        for j in range(n-1, -1, -1):
            r[j] = s.name(j, a[j]-z[j]-sum((r[i]*L[i][j] for i in range(j+1, n)), 0))
        return r

    def form(s, L, d, a, z):
        r = s.residuals(L, a, z)
        return sum((r[j]*r[j]/d[j] for j in range(len(a))), 0)


def whole(x):
    return mkbool(z3.IsInt(zreal(x)))


def absv(x):
    return Ite(x >= 0, x, -x)


class Spec:
    def __init__(s, name, n, nc):
        s.name, s.n, s.nc = name, n, nc
        s.g = None

    # ------------------------------------------------------------- invariant
    def at(s, e, inner=False):
        n, nc = s.n, s.nc
        L, d, a, k = e.L, e.d, e.ahat, e.k_
        zc, ac, st, ds, S = e.env['zcond'], e.env['acond'], e.env['step'], e.env['dist'], e.env['S']
        z, q, chi, cnt, imax = e.env['afixed'], e.env['sqnorm'], e.env['Chi2'], e.env['count'], e.env['imax']
        out = []
        add = lambda nm, c: out.append((nm, c))
        lf = {j: ac[j]-zc[j] for j in range(k, n)}
        if s.name == 'msearch':
            add('residual of the level', e.env['left'] == lf[k])
        else:
            for j in range(k, n):
                add('residual of the level', e.env['left'][j] == lf[j])
        for j in range(k, n):
            add('conditional estimate', ac[j] == a[j]-sum((lf[i]*L[i][j] for i in range(j+1, n)), 0))
            lo = k if s.name == 'msearch' else 0
            for c in range(j+1):
                if s.name != 'msearch' and c < k and j < e.env['path'][c]:
                    continue
                add('partial sums', S[j, c] == -sum((lf[i]*L[i][c] for i in range(j+1, n)), 0))
            add('integers are tried in zig-zag order', And(st[j] != 0, Implies(st[j] > 0, And(2*lf[j] >= st[j]-1, 2*lf[j] <= st[j])),
                                                           Implies(st[j] < 0, And(2*lf[j] <= st[j]+1, 2*lf[j] >= st[j]))))
        if s.name != 'msearch':
            P = e.env['path']
            add('columns to recompute', all(k <= P[c] < n and P[c] > c for c in range(k)) and all(P[c-1] >= P[c] for c in range(1, k)))
        add('distance of the top level', ds[n-1] == 0)
        for j in range(k+1, n):
            add('distance of the levels above', ds[j-1] == ds[j]+lf[j]*lf[j]/d[j])
        have = s.stored(cnt, chi)
        z_, q_ = [[z[j, i] for j in range(n)] for i in range(nc)], [q[i] for i in range(nc)]
        if have < nc:
            add('bookkeeping', And(chi == BIG, cnt == have-1, imax == nc-1))
            if have:
                add('first candidates are neighbours', k == 0)
            for j in range(k, n):
                m = have+1 if j == 0 else 1
                add('first candidates are neighbours', Or(st[j] == m, st[j] == -m))
        else:
            add('bookkeeping', And(chi == q_[imax], [chi >= x for x in q_], cnt == max(nc-2, -1)))
        for i in range(min(have, nc)):
            add('distance of a candidate', q_[i] == s.form(L, d, a, i, z_[i]))
            for j in range(n):
                add('candidate is integer', whole(z_[i][j]))
            add('a candidate is not visited again', Not(s.pending(k, zc, st, z_[i])))
            for p in range(i):
                add('candidates are distinct', Or([z_[i][j] != z_[p][j] for j in range(n)]))
        w = s.w
        here = [And([w[j] == z_[i][j] for j in range(n)]) for i in range(min(have, nc))]
        add('no integer vector is left out', Or(s.pending(k, zc, st, w), here or False, s.qw >= chi if have >= nc else False))
        if inner:
            add('distance of the current vector', e.env['newdist'] == ds[k]+lf[k]*lf[k]/d[k])
        return out

    def stored(s, cnt, chi):
        if s.nc == 1:
            return 0 if not hasattr(chi, 'z') and chi == BIG else 1
        if cnt < s.nc-2:
            return cnt+1
        return s.nc-1 if not hasattr(chi, 'z') and chi == BIG else s.nc

    def pending(s, k, zc, st, w):
        """some level at or above k has this vector's integer still to be tried"""
        n, out = s.n, []
        for j in range(k, n):
            same = [w[i] == zc[i] for i in range(j+1, n)]
            if j == k:
                lo, hi = Ite(st[j] > 0, zc[j]+1, zc[j]+st[j]+1), Ite(st[j] > 0, zc[j]+st[j]-1, zc[j]-1)
            else:
                lo, hi = Ite(st[j] > 0, zc[j], zc[j]+st[j]+1), Ite(st[j] > 0, zc[j]+st[j]-1, zc[j])
            out.append(And(same, Or(w[j] < lo, w[j] > hi)))
        return Or(out)

    def finished(s, e):
        n, nc = s.n, s.nc
        L, d, a = e.L, e.d, e.ahat
        z, q = e.env['afixed'], e.env['sqnorm']
        out = []
        z_ = [[z[j, i] for j in range(n)] for i in range(nc)]
        for i in range(nc):
            out.append(('distance of a candidate', q[i] == s.form(L, d, a, i, z_[i])))
            for j in range(n):
                out.append(('candidate is integer', whole(z_[i][j])))
            for p in range(i):
                out.append(('candidates are distinct', Or([z_[i][j] != z_[p][j] for j in range(n)])))
        here = [And([s.w[j] == z_[i][j] for j in range(n)]) for i in range(nc)]
        out.append(('no integer vector is left out', Or(here, And([s.qw >= q[i] for i in range(nc)]))))
        return out

    def inv(s, inner=False):
        def f(e):
            e.__dict__['k_'] = e.env['k']
            if s.mode == 'through':             # the state of the loop inside is arbitrary: see havoc
                s.phase = ''
                return []
            if s.phase == 'assume':
                s.phase = ''
                r = [('all', And([c for _, c in (s.finished(e) if s.end else s.at(e, inner))]))]
                s.cand = None
                return r
            if e.env['endSearch'] is True:
                return s.finished(e)
            return s.at(e, inner)
        return f

    def form(s, L, d, a, i, z):
        if s.cand and i in s.cand:
            r = s.cand[i]
            return sum((r[j]*r[j]/d[j] for j in range(s.n)), 0)
        return s.gh.form(L, d, a, z)

    def havoc(s, inner=False):
        def f(e):
            n, nc, env = s.n, s.nc, e.env
            L, a, d = e.L, e.ahat, e.d
            V = lambda nm, *q: SReal(z3.Real(C.fresh(nm)))
            I = lambda nm: SInt(z3.Int(C.fresh(nm)))
            pick = lambda nm, vals: next((v for v in vals[:-1] if C.branch(z3.Bool(C.fresh(nm)))), vals[-1])
            if inner and s.mode == 'establish':
                raise PathEnd('loop body checked')
            s.phase, s.mode = 'assume', ''
            s.end = not inner and C.branch(z3.Bool(C.fresh('end')))
            env['endSearch'] = bool(s.end)
            if s.name == 'estimILS' and not inner and not s.end:
                # one path shows that the invariant of the loop inside is established,
                # the other explores that loop and what follows it from its own invariant
                s.mode = 'establish' if C.branch(z3.Bool(C.fresh('establish'))) else 'through'
                if s.mode == 'through':
                    env['k'], env['count'], env['imax'], env['Chi2'] = n-1, -1, nc-1, BIG
                    return
            have = nc if s.end else pick('have', list(range(nc+1)))
            env['count'] = min(have, nc-1)-1
            for i in range(nc):
                for j in range(n):
                    env['afixed'][j, i] = SReal(z3.ToReal(z3.Int(C.fresh('z')))) if i < have else 0.0
                env['sqnorm'][i] = V('q') if i < have else 0.0
            if have == nc:
                env['imax'] = pick('imax', list(range(nc)))
                env['Chi2'] = env['sqnorm'][env['imax']]
            else:
                env['imax'], env['Chi2'] = nc-1, BIG
            k = env['k'] = n-1 if s.end else 0 if 0 < have < nc else pick('k', list(range(n)))
            for j in range(n):
                for arr in ('acond', 'dist'):
                    env[arr][j] = V(arr)
                env['step'][j], env['zcond'][j] = I('step'), I('zcond')
                for c in range(n):
                    env['S'][j, c] = V('S')
            s.cand = {i: s.gh.residuals(L, a, [env['afixed'][j, i] for j in range(n)]) for i in range(min(have, nc))}
            lf = {}
            for j in range(n-1, k-1, -1):
                lf[j] = s.gh.name(j, a[j]-env['zcond'][j]-sum((lf[i]*L[i][j] for i in range(j+1, n)), 0))
                env['acond'][j] = lf[j]+env['zcond'][j]
            ds = 0.0
            for j in range(n-1, k-1, -1):
                env['dist'][j] = ds
                ds = ds+lf[j]*lf[j]/d[j]
            if s.name == 'msearch':
                env['left'] = lf[k]
            else:
                for j in range(n):
                    env['left'][j] = lf[j] if j >= k else V('left')
                for c in range(n):
                    env['path'][c] = n-1 if c >= k or s.end else pick('path', list(range(max(k, c+1), n)))
            for j in range(k, n):
                for c in range(j+1):
                    if s.name == 'msearch' or c >= k or j >= env['path'][c]:
                        env['S'][j, c] = -sum((lf[i]*L[i][c] for i in range(j+1, n)), 0)
            if inner:
                env['newdist'] = ds
        return f

    def loops(s):
        if s.name == 'msearch':
            return [LoopSpec(s.inv(), s.havoc(), label='while', touch=T)]
        import ast
        names = lambda nd: {x.id for x in ast.walk(nd.test) if isinstance(x, ast.Name)} if hasattr(nd, 'test') else set()
        lt = lambda nd: hasattr(nd, 'test') and isinstance(nd.test, ast.Compare) and isinstance(nd.test.ops[0], ast.Lt)
        return [LoopSpec(s.inv(), s.havoc(), match=lambda nd, env: names(nd) == {'endSearch'}, label='while', touch=T),
                LoopSpec(s.inv(True), s.havoc(True), match=lambda nd, env: lt(nd) and 'newdist' in names(nd), label='descent', touch=T)]


def proof(name, n, nc, places, tag=''):
    s = Spec(name, n, nc)

    def f(g):
        if g.symbolic:
            C.squares = []
        p = g.choice('place', list(range(len(places)))) if g.symbolic else None
        l = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        if p is None:
            for i in range(n):
                for j in range(i):
                    l[i][j] = g.real('l%d%d' % (i, j), -2, 2)
            d = [g.real('d%d' % i, 0.01, 4) for i in range(n)]
        else:
            ll, d = places[p]
            it = iter(ll or [])
            if d is None:
                d = [g.real('d%d' % i, 0.01, 100) for i in range(n)]
            for i in range(n):
                for j in range(i):
                    l[i][j] = next(it) if ll is not None else g.real('l%d%d' % (i, j), -2, 2)
        a = [g.real('a%d' % i, -50, 50) for i in range(n)]
        w = [g.int('w%d' % i, -70, 70) if g.symbolic else round(a[i])+g.int('w%d' % i, -3, 3) for i in range(n)]
        L, D, A = g.array([x for r in l for x in r]).reshape(n, n), g.array(list(d)), g.array(list(a))
        s.w, s.phase, s.mode, s.end, s.gh, s.cand = w, '', '', False, Ghost(), None
        s.qw = s.gh.form(l, d, a, w) if g.symbolic else form(l, d, a, w)
        z, q = g.call('mlambda:'+name, L, D, A, nc)
        for i in range(nc):
            zi = [z[j, i] for j in range(n)]
            if g.symbolic:
                g.ensure('distance of a candidate', q[i] == s.gh.form(l, d, a, zi))
            else:
                v = form(l, d, a, zi)
                g.ensure('distance of a candidate', abs(q[i]-v) <= 1e-7*(1+v))
                g.ensure('candidate is integer', all(x == round(x) for x in zi))
            for p in range(i):
                g.ensure('candidates are distinct', Or([z[j, i] != z[j, p] for j in range(n)]))
            if i:
                g.ensure('nearest first', q[i-1] <= q[i])
        here = Or([And([w[j] == z[j, i] for j in range(n)]) for i in range(nc)])
        g.ensure('no nearer integer vector', Or(here, s.qw >= q[nc-1]-(0 if g.symbolic else 1e-7)))
    f.__name__ = '%s_invariant_%d_%d%s' % (name, n, nc, tag)
    return contract('L02', fns=['mlambda:'+name], n=300, merging=False, tmo=150, br_ms=150, ob_ms=30000, loops={'mlambda:'+name: s.loops()})(f)


ANY = [(None, None)]                                              # every factor L and d
THREE = [([0.375, -0.25, 0.5], [0.5, 0.25, 0.125])]
for name in ('msearch', 'estimILS'):
    proof(name, 1, 2, ANY)
    proof(name, 2, 2, ANY)
    proof(name, 3, 2, THREE)
proof('estimILS', 2, 1, ANY)
