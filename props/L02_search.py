"""L02 integer search: best candidates, consistent distances, partial fixing."""
import itertools
import numpy as np
from vc.api import contract, And, close, resolve

F = ['mlambda:msearch', 'mlambda:estimILS', 'mlambda:parsearch', 'mlambda:mlambda', 'mlambda:sr_boost']
WHY = 'sizes beyond those of the loop-invariant proof (L02_invariant)'


def problem(g, n, integer=None, lmax=0.5):
    L = np.eye(n)
    for i in range(n):
        for j in range(i):
            L[i, j] = g.real('l%d%d' % (i, j), -lmax, lmax)
    d = np.array([g.real('d%d' % i, 0.01, 1.0) for i in range(n)])
    a = np.array([g.real('a%d' % i, -50, 50) for i in range(n)])
    return L, d, a


def brute(Q, a, m, r=3):
    """the m best integer vectors near a (complete for the metrics used here)"""
    Qi = np.linalg.inv(Q)
    c = np.round(a)
    out = []
    R = np.sqrt(np.diag(Q))
    s0 = sorted((float((a-c-e)@Qi@(a-c-e)) for e in np.array(list(itertools.product((-1, 0, 1), repeat=len(a))))))[m-1]
    w = [range(int(np.floor(a[i]-c[i]-R[i]*np.sqrt(s0)-1e-9)), int(np.ceil(a[i]-c[i]+R[i]*np.sqrt(s0)+1e-9))+1) for i in range(len(a))]
    tot = np.prod([len(x) for x in w])
    if tot > 60000:
        return None
    E = np.array(list(itertools.product(*w)), dtype=float)
    D = (a-c)-E
    q = np.einsum('ij,jk,ik->i', D, Qi, D)
    k = np.argsort(q)[:m]
    return [(q[i], c+E[i]) for i in k]


def search(name):
    def f(g):
        n = g.int('n', 1, 5)
        nc = g.int('ncands', 1, 3) if name == 'estimILS' else g.int('ncands', 2, 3)
        L, d, a = problem(g, n)
        if g.choice('near', [0, 0, 1]):
            a = np.round(a)+np.array([g.real('e%d' % i, -1e-3, 1e-3) for i in range(n)])
        if g.choice('half', [0, 0, 0, 1]):
            a = np.round(a)+0.5
        Q = L.T@np.diag(d)@L
        Qi = np.linalg.inv(Q)
        z, s = g.call('mlambda:'+name, L.copy(), d.copy(), a.copy(), nc)
        ref = brute(Q, a, nc)
        g.ensure('ascending', all(s[i] <= s[i+1]+1e-12 for i in range(nc-1)))
        g.ensure('integer', np.all(z == np.round(z)))
        g.ensure('distinct', len({tuple(z[:, i]) for i in range(nc)}) == nc)
        for i in range(nc):
            q = (a-z[:, i])@Qi@(a-z[:, i])
            g.ensure('distance is the quadratic form', abs(q-s[i]) <= 1e-7*(1+q))
            if ref:
                g.ensure('no better integer vector', abs(s[i]-ref[i][0]) <= 1e-7*(1+ref[i][0]))
    f.__name__ = 'best_candidates_'+name
    return f


contract('L02', fns=F, n=2500, prove=False, why=WHY, conc_s=15)(search('msearch'))
contract('L02', fns=F, n=2500, prove=False, why=WHY, conc_s=15)(search('estimILS'))


def tree(L, d, a, m):
    """the m best integer vectors by plain recursion over the conditional estimates (independent of the code's search)"""
    n, best = len(d), []

    def go(k, z, q):
        if len(best) == m and q >= best[-1][0]:
            return
        if k < 0:
            best.append((q, list(z)))
            best.sort(key=lambda t: t[0])
            del best[m:]
            return
        c = a[k]+sum((z[j]-w[j])*L[j, k] for j in range(k+1, n))
        for v in sorted(range(int(np.floor(c))-3, int(np.ceil(c))+4), key=lambda v: abs(v-c)):
            w[k], z[k] = c, v
            go(k-1, z, q+(c-v)**2/d[k])
    w = np.zeros(n)
    go(n-1, np.zeros(n), 0.0)
    return best


@contract('L02', fns=F+['mlambda:ldldecom', 'mlambda:reduction'], n=200, prove=False, why=WHY, conc_s=10)
def many_ambiguities(g):
    """up to eighteen ambiguities"""
    n = g.int('n', 6, 18)
    L, d, a = problem(g, n)
    d = d*0.15
    Q = L.T@np.diag(d)@L
    ref = tree(L, d, a, 2)
    g.assume(ref[1][0] < min(12.0/d))
    zs = [g.call('mlambda:'+f, L.copy(), d.copy(), a.copy(), 2) for f in ('msearch', 'estimILS')]
    z, s, nfix, Ps = g.call('mlambda:mlambda', a.copy(), Q.copy(), 2, 1)
    g.ensure('all fixed', nfix == n and z.shape == (n, 2))
    for z, s in zs+[(z, s)]:
        for i in range(2):
            g.ensure('best two', abs(s[i]-ref[i][0]) <= 1e-6*(1+ref[i][0]) and np.abs(z[:, i]-ref[i][1]).max() < 1e-6)


@contract('L02', fns=F+['mlambda:ldldecom', 'mlambda:reduction'], n=1500, prove=False, why=WHY, conc_s=15)
def full_resolution(g):
    """the integer vectors are the closest ones in the metric of the original covariance"""
    n = g.int('n', 2, 4)
    L, d, a = problem(g, n, lmax=3.0)
    Q = L.T@np.diag(d)@L
    z, s, nfix, Ps = g.call('mlambda:mlambda', a.copy(), Q.copy(), 2, 1)
    Qi = np.linalg.inv(Q)
    g.ensure('integer', np.abs(z-np.round(z)).max() < 1e-6)
    g.ensure('all fixed', nfix == n and z.shape == (n, 2))
    g.ensure('ascending', s[0] <= s[1])
    for i in range(2):
        q = (a-z[:, i])@Qi@(a-z[:, i])
        g.ensure('distance in the original metric', abs(q-s[i]) <= 1e-6*(1+q))
    Z = np.array(list(itertools.product((-1, 0, 1), repeat=n)))
    for b in (np.round(a), np.round(z[:, 0])):
        D = a-b-Z
        q = np.einsum('ij,jk,ik->i', D, Qi, D)
        g.ensure('no nearer integer vector', s[0] <= q.min()+1e-6*(1+q.min()))
    ref = brute(Q, a, 2)
    if ref:
        g.ensure('best two', max(abs(s[i]-ref[i][0])/(1+ref[i][0]) for i in range(2)) < 1e-6)
    g.ensure('success rate', 0 <= Ps <= 1)


@contract('L02', fns=F, n=1500, prove=False, why=WHY, conc_s=10)
def partial_resolution(g):
    """fixed subset of the decorrelated ambiguities, the rest conditioned on it"""
    n = g.int('n', 2, 5)
    L, d, a = problem(g, n)
    k = g.choice('big', [0, 1, 2])
    d[:k] = 0.5
    d[k:] *= 0.01
    Q = L.T@np.diag(d)@L
    P0 = g.choice('P0', [0.9, 0.99, 0.999])
    ps = [g.call('mlambda:sr_boost', d[i:]) for i in range(n)]
    zp, s, Qz, Zp, Ps, nfix, z = g.call('mlambda:parsearch', a, Q, np.eye(n), L, d, ps[0], P0, 2)
    if nfix == 0:
        g.ensure('float solution kept', np.array_equal(z, a) and len(zp) == 0)
        return
    k = n-nfix
    g.ensure('success rate above the threshold', Ps > P0 and abs(Ps-ps[k]) < 1e-12)
    g.ensure('largest subset', all(p < P0 for p in ps[:k]))
    g.ensure('fixed part is integer', np.all(z[k:] == np.round(z[k:])) and z.shape == (n, 2))
    Q2 = Q[k:, k:]
    for i in range(2):
        e = a[k:]-z[k:, i]
        q = e@np.linalg.inv(Q2)@e
        g.ensure('distance of the subset', abs(q-s[i]) < 1e-6*(1+q))
        g.ensure('rest conditioned on the fixed part', np.abs(z[:k, i]-(a[:k]-Q[:k, k:]@np.linalg.inv(Q2)@e)).max() < 1e-6 if k else True)
    ref = brute(Q2, a[k:], 2)
    if ref:
        g.ensure('best two', max(abs(s[i]-ref[i][0])/(1+ref[i][0]) for i in range(2)) < 1e-6)
