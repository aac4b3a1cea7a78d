"""F03 measurement update of the filter."""
import numpy as np
from vc.api import contract, And, close, resolve, is_sym
from vc import ring
from vc.sym import C, zreal, mkbool

F = ['pppssr:pppos.kfupdate', 'pppssr:pppos.ddcov']


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum(((-1)**i*M[0][i]*det([r[:i]+r[i+1:] for r in M[1:]]) for i in range(len(M))), 0)


def equal(a, b, scale=1):
    if is_sym(a) or is_sym(b):
        d = zreal(a)-zreal(b)
        return True if ring.is_zero(d) else mkbool(d == 0)
    return abs(a-b) <= 1e-6*(abs(scale)+abs(a)+abs(b))


def mul(A, B):
    return [[sum((A[i][k]*B[k][j] for k in range(len(B))), 0) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def sym(g, nm, n, lo, hi):
    """L D L^T with unit diagonal L and positive D: any positive definite matrix"""
    L = [[1 if i == j else (g.real('%sl%d%d' % (nm, i, j), -1, 1) if j < i else 0) for j in range(n)] for i in range(n)]
    D = [[g.real('%sd%d' % (nm, i), lo, hi) if i == j else 0 for j in range(n)] for i in range(n)]
    return mul(mul(L, D), tr(L))


def update(n, m):
    def f(g):
        if g.symbolic:
            C.ringnorm = True
        if g.symbolic:
            # any symmetric matrices
            P = [[None]*n for _ in range(n)]
            R = [[None]*m for _ in range(m)]
            for M, k, nm in ((P, n, 'P'), (R, m, 'R')):
                for i in range(k):
                    for j in range(i+1):
                        M[i][j] = M[j][i] = g.real('%s%d%d' % (nm, i, j))
        else:
            P, R = sym(g, 'p', n, 0.01, 10), sym(g, 'r', m, 0.01, 2)
        H = [[g.real('h%d%d' % (i, j), -2, 2) for j in range(n)] for i in range(m)]
        x = [g.real('x%d' % i, -100, 100) for i in range(n)]
        v = [g.real('v%d' % i, -10, 10) for i in range(m)]
        HPt = mul(P, tr(H))
        S = mul(H, HPt)
        S = [[S[i][j]+R[i][j] for j in range(m)] for i in range(m)]
        dS = det(S)
        g.assume(dS != 0)
        if not g.symbolic:
            g.assume(abs(dS) > 1e-3)
        o = resolve('pppssr:pppos').__new__(resolve('pppssr:pppos'))
        fl = lambda M: g.array([a for r in M for a in r]).reshape(len(M), len(M[0]))
        Pa, Ra, Ha, va = fl(P), fl(R), fl(H), g.array(v)
        x1, P1, S1 = g.call('pppssr:pppos.kfupdate', o, g.array(x), Pa, Ha, va, Ra)
        for i in range(m):
            for j in range(m):
                g.ensure('innovation covariance', equal(S1[i, j], S[i][j]))
        # S^{-1} by cofactors
        Si = [[(-1)**(i+j)*(det([[S[p][q] for q in range(m) if q != i] for p in range(m) if p != j]) if m > 1 else 1)/dS
               for j in range(m)] for i in range(m)]
        K = mul(HPt, Si)
        for i in range(n):
            g.ensure('state', equal(x1[i], x[i]+sum((K[i][j]*v[j] for j in range(m)), 0), 100))
        KHP = mul(mul(K, H), P)
        for i in range(n):
            for j in range(i+1):
                g.ensure('covariance', equal(P1[i, j], P[i][j]-KHP[i][j], 10))
                g.ensure('symmetric', equal(P1[i, j], P1[j, i], 10))
                g.ensure('the prior covariance is unchanged', equal(Pa[i, j], P[i][j]))
        if not g.symbolic:
            ev = np.linalg.eigvalsh((np.array(P1, dtype=float)+np.array(P1, dtype=float).T)/2)
            g.ensure('positive semidefinite', ev.min() > -1e-9)
            d = np.linalg.eigvalsh(np.array(P)-np.array(P1))
            g.ensure('never larger than the prior', d.min() > -1e-7)
    f.__name__ = 'update_%d_states_%d_measurements' % (n, m)
    return contract('F03', fns=F[:1], n=200, merging=False, tmo=100)(f)


for _a, _b in ((1, 1), (2, 1), (3, 1), (2, 2)):
    update(_a, _b)


@contract('F03', fns=F[:1], n=300, prove=False, why='matrix sizes beyond the symbolic inverse')
def update_larger(g):
    n, m = g.int('n', 2, 9), g.int('m', 1, 7)
    P, R = np.array(sym(g, 'p', n, 0.01, 10)), np.array(sym(g, 'r', m, 0.05, 2))
    H = np.array([[g.real('h%d%d' % (i, j), -2, 2) for j in range(n)] for i in range(m)])
    x = np.array([g.real('x%d' % i, -100, 100) for i in range(n)])
    v = np.array([g.real('v%d' % i, -10, 10) for i in range(m)])
    o = resolve('pppssr:pppos').__new__(resolve('pppssr:pppos'))
    P0 = P.copy()
    x1, P1, S1 = g.call('pppssr:pppos.kfupdate', o, x.copy(), P, H, v, R)
    I = np.linalg.inv(P0)+H.T@np.linalg.inv(R)@H
    Pn = np.linalg.inv(I)
    g.ensure('information form: covariance', np.abs(P1-Pn).max() < 1e-5*(1+np.abs(P0).max()))
    g.ensure('information form: state', np.abs(x1-(x+Pn@H.T@np.linalg.inv(R)@v)).max() < 1e-4*(1+np.abs(v).max()))
    g.ensure('innovation covariance', np.abs(S1-(H@P0@H.T+R)).max() < 1e-8*(1+np.abs(P0).max()*20))
    g.ensure('symmetric', np.abs(P1-P1.T).max() < 1e-8*(1+np.abs(P0).max()))


@contract('F03', fns=F[1:], n=200)
def differenced_noise(g):
    """differences that share a reference satellite are correlated through it only"""
    nb = [g.int('n%d' % i, 0, 3) for i in range(3)]
    if g.symbolic:
        nb = [g.concretize(k) for k in nb]
    noise_of(g, nb)


@contract('F03', fns=F[1:], n=30)
def differenced_noise_full_sky(g):
    noise_of(g, g.choice('groups', [[14, 0, 20, 3], [1, 2, 0, 1, 1, 1, 2, 1, 1, 1, 0, 1, 1, 2, 1, 1], [40]]))


def noise_of(g, nb):
    nv = sum(nb)
    Ri = [g.real('i%d' % i, 0, 10) for i in range(nv)]
    Rj = [g.real('j%d' % i, 0, 10) for i in range(nv)]
    o = resolve('pppssr:pppos').__new__(resolve('pppssr:pppos'))
    R = g.call('pppssr:pppos.ddcov', o, np.array(nb), len(nb), g.array(Ri), g.array(Rj), nv)
    grp = [b for b in range(len(nb)) for _ in range(nb[b])]
    for i in range(nv):
        for j in range(nv):
            g.ensure('covariance of two differences', R[i, j] == (0 if grp[i] != grp[j] else Ri[i]+(Rj[i] if i == j else 0)))
