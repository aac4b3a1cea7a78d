"""L02 what the search is asked and what becomes of its answer (search, factorisation and reduction by their contracts)."""
import numpy as np
from contextlib import ExitStack
from vc.api import contract, close
from .f_common import cases

F = ['mlambda:mlambda', 'mlambda:parsearch']
# unimodular transformations and factors
ZS = {1: [[1]], 2: [[1, 2], [0, 1]], 3: [[0, 1, 0], [1, -3, 0], [2, 5, 1]], 5: [[1, 0, 0, 2, 0], [0, 1, 0, -1, 0], [3, 0, 1, 0, 1], [0, 0, 0, 0, 1], [0, 0, 0, 1, -2]]}


def factors(n, var=0):
    L = np.eye(n)
    for i in range(n):
        for j in range(i):
            L[i, j] = ((3*i+5*j+var) % 9-4)/8.
    return L, np.array([(0.5, 0.0625, 0.25, 0.03125, 0.125)[(i+var) % 5] for i in range(n)])


@contract('L02', fns=['mlambda:mlambda', 'mlambda:parsearch'], n=300, tmo=100, merging=False)
def composition(g):
    """full and partial resolution: the decorrelated problem is searched, the answer is brought back to the original ambiguities"""
    n, nc, mode, var = cases(g, 24, size=[1, 2, 3, 5], cands=[2, 1, 3], mode=[1, 2], var=[0, 1, 2])
    Z = np.array(ZS[n], dtype=float)
    L, d = factors(n, var)
    a = [g.real('a%d' % i, -1e4, 1e4) for i in range(n)]
    Q = np.arange(n*n, dtype=float).reshape(n, n)
    zs = [[g.int('z%d%d' % (i, j), -10**4, 10**4) for j in range(nc)] for i in range(n)]
    sq = [g.real('s%d' % j, 0, 1e3) for j in range(nc)]
    ps = [g.real('ps%d' % k, 0, 1) for k in range(n)]
    P0 = g.choice('P0', [0.995, 0.9])
    asked = []

    def boost(dd):
        k = n-len(dd)
        asked.append(('ps', list(dd) == list(d[k:])))
        return ps[k]

    def ils(Ls, ds, zh, m=2):
        asked.append(('ils', np.array(Ls), np.array(ds), list(zh), m))
        k = n-len(ds)
        return g.array([zs[i][j] for i in range(k, n) for j in range(nc)]).reshape(n-k, nc), g.array(list(sq))

    with ExitStack() as st:
        for path, fn in (('mlambda:ldldecom', lambda q: (asked.append(('ldl', q)), (L.copy(), d.copy()))[1]),
                         ('mlambda:reduction', lambda l, dd: (asked.append(('red', np.array_equal(l, L), np.array_equal(dd, d))), (l, dd, Z.copy()))[1]),
                         ('mlambda:sr_boost', boost), ('mlambda:estimILS', ils)):
            st.enter_context(g.stub(path, fn))
        A = g.array(list(a))
        z, s, nfix, Ps = g.call('mlambda:mlambda', A, Q, nc, mode, P0)
    for i in range(n):
        g.ensure('the float ambiguities are unchanged', A[i] == a[i])
    zh = [sum((Z[i, j]*a[i] for i in range(n)), 0.0) for j in range(n)]
    Zi = np.round(np.linalg.inv(Z.T))
    back = lambda v: [sum((Zi[i, j]*v[j] for j in range(n)), 0.0) for i in range(n)]
    g.ensure('the covariance is factorised', [q for q in asked if q[0] == 'ldl'][0][1] is Q or np.array_equal([q for q in asked if q[0] == 'ldl'][0][1], Q))
    g.ensure('success rates of the last ambiguities', all(q[1] for q in asked if q[0] == 'ps'))
    ask = [q for q in asked if q[0] == 'ils']
    k = 0
    if mode == 2:
        while k < n-1 and bool(ps[k] < P0):
            k += 1
        if k > 1 or not bool(ps[k] > P0):
            g.ensure('no subset: nothing is fixed', nfix == 0 and not ask and len(s) == 0)
            v = back(zh)
            for i in range(n):
                g.ensure('no subset: the float solution is kept', close(z[i], v[i], 1e-6))
            return
    g.ensure('one search', len(ask) == 1 and ask[0][4] == nc)
    g.ensure('success rate', Ps == ps[k])
    g.ensure('number of fixed ambiguities', nfix == n-k)
    g.ensure('factors of the searched ambiguities', np.array_equal(ask[0][1], L[k:, k:]) and np.array_equal(ask[0][2], d[k:]))
    for i in range(n-k):
        g.ensure('decorrelated float ambiguities', close(ask[0][3][i], zh[k+i], 1e-6))
    Qz = L.T@np.diag(d)@L
    W = Qz[:k, k:]@np.linalg.inv(Qz[k:, k:])
    for j in range(nc):
        g.ensure('distance of the candidate', s[j] == sq[j])
        v = [zh[i]-sum((W[i, p]*(zh[k+p]-zs[k+p][j]) for p in range(n-k)), 0.0) for i in range(k)]+[zs[i][j] for i in range(k, n)]
        w = back(v)
        for i in range(n):
            g.ensure('candidate in the original ambiguities', close(z[i, j], w[i], 1e-6))
