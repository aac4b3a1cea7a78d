"""L01 the decorrelated ambiguity problem is equivalent to the original one."""
import numpy as np
import z3
from vc.api import contract, And, Implies, close, resolve, is_sym, Raised
from vc.interp import LoopSpec, mkarr
from vc.sym import C, SReal, SInt, zreal, zbool, mkbool
from vc import ring

F = ['mlambda:ldldecom', 'mlambda:reduction']


def matrix(L, d, i, j):
    return sum((L[k][i]*d[k]*L[k][j] for k in range(len(d))), 0)


def same_poly(a, b):
    d = zreal(a)-zreal(b)
    return True if ring.is_zero(d) else mkbool(d == 0)


def determinant(M):
    if len(M) == 1:
        return M[0][0]
    return sum(((-1)**i*M[0][i]*determinant([r[:i]+r[i+1:] for r in M[1:]]) for i in range(len(M))), 0)


def whole_det(M):
    """exact determinant of an integer matrix (Bareiss)"""
    M, p, sg = [list(r) for r in M], 1, 1
    n = len(M)
    for k in range(n-1):
        if M[k][k] == 0:
            r = next((i for i in range(k+1, n) if M[i][k]), None)
            if r is None:
                return 0
            M[k], M[r], sg = M[r], M[k], -sg
        for i in range(k+1, n):
            for j in range(k+1, n):
                M[i][j] = (M[i][j]*M[k][k]-M[i][k]*M[k][j])//p
        p = M[k][k]
    return sg*M[-1][-1]


def ldl(n):
    def f(g):
        if g.symbolic:
            C.ringnorm = True
        s = [g.real('s%d' % i, 0.05, 20) for i in range(n)]
        d0 = [x*x for x in s]
        L0 = [[1 if i == j else g.real('l%d%d' % (i, j), -3, 3) if j < i else 0 for j in range(n)] for i in range(n)]
        Q = g.array([matrix(L0, d0, i, j) for i in range(n) for j in range(n)]).reshape(n, n)
        Q0 = Q.copy()
        L, d = g.call('mlambda:ldldecom', Q)
        for i in range(n):
            g.ensure('diagonal factor', close(d[i], d0[i], 1e-5))
            for j in range(n):
                if j <= i:
                    g.ensure('unit lower triangular factor', close(L[i, j], L0[i][j], 1e-5))
                else:
                    g.ensure('no element above the diagonal', L[i, j] == 0)
                g.ensure('the argument is unchanged', Q[i, j] == Q0[i, j])
    f.__name__ = 'factorisation_%d' % n
    return f


for _n in (1, 2, 3, 4):
    contract('L01', fns=F[:1], n=200)(ldl(_n))
for _n in (6, 9, 15):
    contract('L01', fns=F[:1], n=40, prove=False, why='size %d beyond the provers' % _n)(ldl(_n))
del _n


@contract('L01', fns=F[:1], n=300)
def indefinite_matrix_is_refused(g):
    """2 x 2 with a non-positive pivot: no factor is returned"""
    a, b = g.real('a', 1e-3, 1e3), g.real('l', -3, 3)
    d0 = g.real('d0', -1e3, -1e-3)
    s = a*a
    if g.symbolic:
        C.ringnorm = True
    Q = g.array([d0+b*b*s, b*s, b*s, s]).reshape(2, 2)
    try:
        r = g.attempt('mlambda:ldldecom', Q)
    except SystemExit:
        r = Raised(None)
    g.ensure('refused', isinstance(r, Raised))


# ------------------------------------------------------------- reduction
def step_spec(n):
    """loop invariant of the integer reduction, as one elementary step: Z' = Z U
    with U integer and unimodular and L'^T D' L' = U^T (L^T D L) U; columns
    beyond min(j, k) are size-reduced and pivots beyond j are ordered"""
    st = {}

    def inv(e):
        L, d, Z = e.env['L'], e.env['d'], e.env['Z']
        j, k = e.env['j'], e.env['k']
        out = []
        if 'pre' not in st:                       # established
            for a in range(n):
                for b in range(n):
                    out.append(('Z is the identity', Z[a, b] == (1 if a == b else 0)))
        elif st.get('phase') == 'post':           # preserved
            L0, d0, Z0 = st['pre']
            sub = [[(z3.Real('Z0%d' % b), z3.RealVal(1 if a == b else 0)) for b in range(n)] for a in range(n)]
            U = [[z3.simplify(z3.substitute(zreal(Z[0, b]), *sub[a])) for b in range(n)] for a in range(n)]
            R = lambda z: SReal(z)
            for a in range(n):
                for b in range(n):
                    out.append(('Z is multiplied by one matrix', same_poly(Z[a, b], sum((Z0[a, c]*R(U[c][b]) for c in range(n)), 0))))
                    out.append(('that matrix is integer', mkbool(z3.IsInt(U[a][b]))))
                    P = sum((R(U[p][a])*matrix(L0, d0, p, q)*R(U[q][b]) for p in range(n) for q in range(n)), 0)
                    out.append(('Z^T Q Z = L^T D L', same_poly(matrix(L, d, a, b), P)))
            det = determinant([[R(x) for x in r] for r in U])
            c = ring.constant_of(zreal(det))
            out.append(('that matrix is unimodular', c is not None and abs(c) == 1))
        for a in range(n):
            out.append(('positive pivots', d[a] > 0))
            for b in range(n):
                if b >= a:
                    out.append(('unit lower triangular', L[a, b] == (1 if a == b else 0)))
        out.append(('column index in range', And(j >= -1, j <= n-2, k >= 0, k <= n-2)))
        for c in range(n-1):
            for i in range(c+1, n):
                out.append(('columns done are size-reduced',
                            Implies(mkbool(z3.Or(zbool(c > j), zbool(c > k))), And(L[i, c] <= 0.5, L[i, c] >= -0.5))))
            out.append(('pivots done are ordered', Implies(c > j, d[c]+L[c+1, c]*L[c+1, c]*d[c+1]+1e-6 >= d[c+1])))
        if 'pre' in st:
            st['phase'] = 'post'
        return out

    def havoc(e):
        L, d, Z = e.env['L'], e.env['d'], e.env['Z']
        for a in range(n):
            d[a] = SReal(z3.Real('d_%d' % a))
            for b in range(n):
                Z[a, b] = SReal(z3.Real('Z%d%d' % (a, b)))
                L[a, b] = (1.0 if a == b else 0.0) if b >= a else SReal(z3.Real('L%d%d' % (a, b)))
        e.env['j'] = C.concretize(SInt(z3.Int('j'))) if C.assume(z3.And(z3.Int('j') >= -1, z3.Int('j') <= n-2)) is None else 0
        C.assume(z3.And(z3.Int('k') >= 0, z3.Int('k') <= n-2))
        e.env['k'] = C.concretize(SInt(z3.Int('k')))
        st['pre'] = (L.copy(), d.copy(), Z.copy())
        st['phase'] = 'assume'
    return inv, havoc, st


def red(n, prove=True):
    inv, havoc, st = step_spec(n)

    def f(g):
        st.clear()
        s = [g.real('s%d' % i, 0.05, 20) for i in range(n)]
        d0 = [x*x for x in s]
        L0 = [[1. if i == j else g.real('l%d%d' % (i, j), -30 if n < 12 else -3, 30 if n < 12 else 3) if j < i else 0. for j in range(n)] for i in range(n)]
        L, d, Z = g.call('mlambda:reduction', g.array([L0[i][j] for i in range(n) for j in range(n)]).reshape(n, n), g.array(d0))
        for i in range(n):
            g.ensure('positive pivots', d[i] > 0)
            for j in range(i):
                g.ensure('size-reduced', And(L[i, j] <= 0.5+1e-9, L[i, j] >= -0.5-1e-9))
            for j in range(i, n):
                g.ensure('unit lower triangular', L[i, j] == (1 if i == j else 0))
            if i < n-1:
                g.ensure('ordered pivots', d[i]+L[i+1, i]*L[i+1, i]*d[i+1]+1.1e-6 >= d[i+1])
        if not g.symbolic:
            Q = np.array([[matrix(L0, d0, i, j) for j in range(n)] for i in range(n)])
            g.ensure('integer', np.all(Z == np.round(Z)))
            g.ensure('unimodular', abs(whole_det([[int(v) for v in r] for r in Z])) == 1)
            P = Z.T@Q@Z
            g.ensure('Z^T Q Z = L^T D L', np.abs(P-L.T@np.diag(d)@L).max() <= 1e-9*(np.abs(Q).max()*np.abs(Z).max()**2*n*n))
    f.__name__ = 'reduction_%d' % n
    if not prove:
        return contract('L01', fns=F[1:], n=40, prove=False, why='size %d beyond the provers' % n)(f)
    return contract('L01', fns=F[1:], n=300, merging=False, tmo=120, br_ms=8000, ob_ms=30000, loops={'mlambda:reduction': [LoopSpec(inv, havoc, label='while')]})(f)


for _n in (2, 3, 4):
    red(_n)
for _n in (6, 9, 15):
    red(_n, False)
del _n
