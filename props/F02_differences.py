"""F02 between-satellite differences: residual, design matrix and noise."""
import math
import numpy as np
import z3
from vc.api import contract, And, close, resolve, is_sym
from vc.sym import SReal, zreal
from .f_common import history, G, T, sigs, freq, CL, sat, engine, cases

F = ['pppssr:pppos.sdres', 'pppssr:pppos.ddcov', 'pppssr:pppos.varerr', 'pppssr:pppos.sysidx',
     'pppssr:pppos.IB', 'pppssr:pppos.II', 'pppssr:pppos.IT']

SETS = [
    [(G.GPS, 3), (G.GPS, 7), (G.GPS, 32)],
    [(G.GPS, 3), (G.GAL, 1), (G.GPS, 7), (G.GAL, 36)],
    [(G.GLO, 1), (G.GLO, 8), (G.QZS, 194)],
    [(G.BDS, 19), (G.GLO, 4), (G.BDS, 62), (G.GLO, 5)],
]


def wet(el):
    if is_sym(el):
        return SReal(z3.Function('mapw', z3.RealSort(), z3.RealSort())(zreal(el)))
    return 1.001/math.sqrt(0.002001+math.sin(el)**2)


@contract('F02', fns=F, n=600, tmo=150)
def between_satellite_differences(g):
    differences(g, *cases(
        g, 40, nf=[1, 2], opt=[(1, 1), (1, 0), (0, 1), (0, 0)], rtk=[0, 1], pmode=[0, 1], sats=SETS,
        order=[[0, 1, 2, 3], [2, 0, 3, 1], [1, 3, 0, 2]], zero=[None, 'first', 'last'], edited=[None, 1], step=[0.27, 0.4, 0.03], low=[0.3, 0.001, 0.05]))


CROWD = [(G.GPS, k) for k in range(1, 15)]
MIXED = [(G.GPS, 2*k+1) for k in range(15)]+[(G.GAL, 3*k+1) for k in range(12)]+[(G.BDS, 4*k+6) for k in range(3)]


@contract('F02', fns=F, n=60, tmo=150)
def many_satellites(g):
    """a full sky: fourteen and thirty satellites"""
    sl, rtk, zero, ed, top = cases(g, 4, sats=[CROWD, MIXED], rtk=[0, 1], zero=['first', 'last'], edited=[13, 1], top=[2, 11, 13])
    n = len(sl)
    differences(g, 1, (1, 1), rtk, 1, sl, [(k*11+n-1-11*top) % n if k != top else n for k in range(n)], zero, ed, 0.04, 0.3)


def differences(g, nf, opt, rtk, pm, sl, order, zero, ed, step, low):
    trop, iono = opt
    o, nav = engine(nf, pm, trop_opt=trop, iono_opt=iono, err=[0, 0.007, 0.0035], eratio=[50.0, 70.0])
    nav.elmin = 0.1
    history(nav)
    g.lift(nav, 0)
    obs = resolve('gnss:Obs')()
    obs.sig = {}
    for s, _ in sl:
        obs.sig.setdefault(s, sigs(s, nf))
    S = np.array([sat(*q) for q in sl])
    obs.sat = S
    n = len(sl)
    nav.glo_ch = {sat(*q): (k*5 % 13)-7 for k, q in enumerate(sl) if q[0] == G.GLO}
    el = [low+step*order[k] for k in range(n)]
    zero = {None: None, 'first': (0, 0), 'last': (n-1, nf)}[zero]
    y = [[g.real('y%d_%d' % (i, f), -100, 100) for f in range(2*nf)] for i in range(n*(1+rtk))]
    for r in y:
        for q in r:
            g.assume(q != 0)
    if zero:
        y[zero[0]][zero[1]] = 0.0
    if ed is not None:
        nav.edt[S[ed]-1, nf-1] = 1
    e = [[g.real('e%d_%d' % (i, c), -1, 1) for c in range(3)] for i in range(n)]
    na = nav.na
    x = [0.0]*nav.nx
    it = na-(233 if iono else 0)-1
    if trop:
        x[it] = g.real('ztd', -1, 1)
    ii = lambda s: na-233+s-1
    ib = lambda s, f: na+233*f+s-1
    for s in S:
        if iono:
            x[ii(s)] = g.real('ion%d' % s, -50, 50)
        for f in range(nf):
            x[ib(s, f)] = g.real('amb%d_%d' % (s, f), -1000, 1000)
    xs = g.array(x)
    ee = g.array([c for r in e for c in r]).reshape(n, 3)
    if rtk:
        ee = g.array([c for r in e+e for c in r]).reshape(2*n, 3)
    with g.stub('pppssr:ecef2pos', lambda r: np.array([0.6, 2.4, 50.0])), \
            g.stub('gnss:tropmapf', lambda t, pos, el_, model=None: (wet(el_), wet(el_))):
        v, H, R = g.call('pppssr:pppos.sdres', o, obs, xs, g.array([q for r in y for q in r]).reshape(len(y), 2*nf), ee, S, g.array(el))
    rows = []
    grp = 0
    var = lambda i, f: (nav_err(1, f)**2+(nav_err(2, f)/max(math.sin(el[i]), 0.1*math.pi/180))**2)

    def nav_err(k, f):
        return [0, 0.007, 0.0035][k]*([50.0, 70.0][f-nf] if f >= nf else 1)
    for s in obs.sig:
        idx = [k for k in range(n) if sl[k][0] == s]
        ref = max(idx, key=lambda k: el[k])
        for f in range(2*nf):
            grp += 1
            for j in idx:
                if j == ref or j == ed or (zero and zero[1] == f and zero[0] in (j, ref)):
                    continue
                rows.append((grp, ref, j, f, s))
    g.ensure('one difference per satellite, signal and type', len(v) == len(rows) and H.shape == (len(rows), nav.nx))
    used = {(S[q]-1, f) for _, i, j, f, _ in rows for q in (i, j) if f < nf}
    g.ensure('satellites whose phase is used are marked', all(nav.vsat[q, f] == ((q, f) in used) for q in range(nav.vsat.shape[0]) for f in range(nf)))
    for k, (gr, i, j, f, s) in enumerate(rows):
        sg = 1 if f >= nf else -1
        ch = nav.glo_ch.get(int(S[j]), 0)
        fq = freq(s, f % nf, ch)
        mu = sg*(freq(s, 0, 0)/fq)**2
        want = {0: e[j][0]-e[i][0], 1: e[j][1]-e[i][1], 2: e[j][2]-e[i][2]}
        d = y[i][f]-y[j][f]
        if rtk:
            d = d-y[i+n][f]+y[j+n][f]
        hx = 0
        if trop:
            want[it] = wet(el[i])-wet(el[j])
        if iono:
            want[ii(S[i])] = mu
            want[ii(S[j])] = -mu
        if f < nf:
            want[ib(S[i], f)] = CL/freq(s, f, nav.glo_ch.get(int(S[i]), 0))
            want[ib(S[j], f)] = -CL/fq
        for c, h in want.items():
            if c > 2:
                hx = hx+h*x[c]
        g.ensure('residual is the difference minus the modelled states', close(v[k], d-hx, 1e-7))
        for c, h in want.items():
            g.ensure('design matrix', close(H[k, c], h, 1e-9))
        g.ensure('no other state', all(H[k, c] == 0 for c in range(nav.nx) if c not in want))
    for a in range(len(rows)):
        for b in range(len(rows)):
            if rows[a][0] != rows[b][0]:
                g.ensure('different signals are independent', R[a, b] == 0)
            else:
                w = var(rows[a][1], rows[a][3])+(var(rows[a][2], rows[a][3]) if a == b else 0)
                g.ensure('noise of the difference', close(R[a, b], w, 1e-9))
