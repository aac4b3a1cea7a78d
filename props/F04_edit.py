"""F04 observation editing: what enters the filter."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, close, resolve, is_sym, Implies
from .f_common import history, G, T, sigs, freq, CL, sat, engine, cases, Patch, Few

F = ['pppssr:pppos.qcedit', 'rtk:rtkpos.base_process']


def setup(g, world, base, nf, sl, bad, pm):
    """sl: satellites; the first one has arbitrary data, bad: discrete defect of it"""
    few = world != 233
    o, nav = engine(nf, pm)
    history(nav)
    nav.elmin = 0.2
    nav.thresslip = 0.15
    nav.tidecorr = resolve('gnss:uTideModel').NONE if bad == 'notide' else resolve('gnss:uTideModel').IERS2010
    n = len(sl)
    sysof = (lambda s: G.GPS if s <= 2 else G.GLO) if few else (lambda s: resolve('gnss:sat2prn')(s)[0])
    nav.glo_ch = {s: 2 for s in sl if sysof(s) == G.GLO}
    obs = resolve('gnss:Obs')()
    obs.sat = np.array(sl)
    obs.sig = {G.GPS: sigs(G.GPS, nf), G.GLO: sigs(G.GLO, nf)}
    x = [g.real('x%d' % k, -1e3, 1e3) for k in range(6)]
    rr = [g.real('r%d' % k, -1e3, 1e3) for k in range(3)]
    disp = [g.real('d%d' % k, -1, 1) for k in range(3)]
    el = [g.real('el%d' % k, 0, 1.5) if k == 0 else 0.7 for k in range(n)]
    P = [[g.real('P%d' % f, 0, 3e7) if k == 0 else 2e7 for f in range(nf)] for k in range(n)]
    L = [[g.real('L%d' % f, 0, 2e8) if k == 0 else 1e8 for f in range(nf)] for k in range(n)]
    S = [[g.real('S%d' % f, 0, 60) if k == 0 else 45.0 for f in range(nf)] for k in range(n)]
    lli = [[g.int('lli%d' % f, 0, 1) if k == 0 else 0 for f in range(nf)] for k in range(n)]
    svh = [0]*n
    if bad == 'unhealthy':
        svh[0] = g.int('svh', 1, 63)
    rs = [[1e7*(k+1), 2e7, 3.0, 0, 0, 0] for k in range(n)]
    dts = [1e-5*(k+1) for k in range(n)]
    if bad == 'noorbit':
        rs[0][1] = math.nan
    if bad == 'noclock':
        dts[0] = math.nan
    if bad == 'excluded':
        nav.excl_sat = [sl[0]]
    gf0 = 0.0
    if nf > 1:
        fr = [freq(sysof(sl[0]), f, 2 if sysof(sl[0]) == G.GLO else 0) for f in range(2)]
        gf1 = L[0][0]*(CL/fr[0])-L[0][1]*(CL/fr[1])
        gf0 = 0.0 if bad == 'first' else gf1+g.real('slip', -0.4, 0.4)
        g.assume(Or(gf1 > 1e-3, gf1 < -1e-3))
        if bad != 'first':
            g.assume(Or(gf0 > 1e-3, gf0 < -1e-3))
        jump = 0.0 if bad == 'first' else gf0-gf1
        g.assume(Not(And(jump > 0.1499999, jump < 0.1500001)))
        g.assume(Not(And(jump < -0.1499999, jump > -0.1500001)))
        arr, other = (nav.gf_r, nav.gf) if base else (nav.gf, nav.gf_r)
        if g.symbolic:
            nav.gf, nav.gf_r = g.array([0.0]*233), g.array([0.0]*233)
            arr, other = (nav.gf_r, nav.gf) if base else (nav.gf, nav.gf_r)
        arr[sl[0]-1] = gf0
        other[sl[0]-1] = 12345.0
    nav.x = g.array(x+[0.0]*(nav.nx-6))
    if not pm:
        x = x[:3]+[0, 0, 0]
    fl = lambda M: g.array([a for r in M for a in r]).reshape(n, -1)
    obs.P, obs.L, obs.S = fl(P), fl(L), fl(S)
    obs.lli = g.array([a for r in lli for a in r], 'i').reshape(n, nf)
    gt = resolve('gnss:gtime_t')
    dt = g.choice('dt', [0, 1, 30])
    nav.t, obs.t = gt(1700000000, 0.0), gt(1700000000+dt, 0.0)
    seen = []

    def dist(r, u):
        seen.append(u)
        return 2e7, r

    def azel(pos, e):
        return 0.0, el[int(round(float(e[0])/1e7))-1]
    args = (obs, g.array([a for r in rs for a in r]).reshape(n, 6), g.array(dts), g.array(svh, 'i'))
    kw = {'rr': g.array(rr)} if base else {}
    from contextlib import ExitStack
    with ExitStack() as st:
        if few:
            st.enter_context(Patch('pppssr', uGNSS=Few(world)))
            st.enter_context(g.stub('gnss:sat2prn', lambda s: (sysof(s), s)))
        for path, fn in (('pppssr:ecef2pos', lambda r: np.array([0.6, 2.4, 50.0])), ('pppssr:geodist', dist), ('pppssr:satazel', azel),
                         ('pppssr:tidedispIERS2010', lambda t, pos, **k: g.array(disp)), ('pppssr:gpst2utc', lambda t: t)):
            st.enter_context(g.stub(path, fn))
        out = g.call('pppssr:pppos.qcedit', o, *args, **kw)
    dd = [0, 0, 0] if bad == 'notide' else disp
    for u in seen[:1]:
        for k in range(3):
            g.ensure('predicted position', close(u[k], (rr[k] if base else x[k]+(x[3+k]*dt if pm else 0))+dd[k], 1e-9))
    hard = bad in ('unhealthy', 'noorbit', 'noclock', 'excluded')
    low = el[0] < 0.2
    fl = []
    for f in range(nf):
        py = sysof(sl[0]) == G.GPS and f == 1
        cn = And(S[0][f] > 0, S[0][f] < (nav.cnr_min_gpy if py else nav.cnr_min))
        b = Or(lli[0][f] == 1, P[0][f] == 0, L[0][f] == 0, cn)
        fl.append(b)
    slip = False
    if nf > 1:
        slip = And(L[0][0] != 0, L[0][1] != 0, Or(jump > 0.15, jump < -0.15), bad != 'first')
        fl = [Or(b, slip) for b in fl]
    s = sl[0]
    got = [bool(v == s) for v in out]
    acc = any(got)
    want = And(not hard, Not(low), *[Not(b) for b in fl])
    g.ensure('accepted exactly when every test passes', Iff(acc, want))
    for f in range(nf):
        g.ensure('edit flag of the signal', Iff(nav.edt[s-1, f] != 0, Or(hard, low, fl[f])))
    rest = [int(v) for v in out if int(v) != s]
    g.ensure('the others are accepted', rest == sorted(sl[1:]))
    for q in range(1, world+1):
        if q not in sl:
            g.ensure('unobserved satellites are edited', all(nav.edt[q-1, f] != 0 for f in range(nf)))
    if nf > 1:
        reach = And(not hard, Not(low), L[0][0] != 0, L[0][1] != 0)
        g.ensure('combination kept for the next epoch', close(arr[s-1], Ite(reach, gf1, gf0), 1e-6, rel=False))
        g.ensure('rover and base are kept apart', other[s-1] == 12345.0)


BAD = ['', '', 'first', 'unhealthy', 'noorbit', 'noclock', 'excluded', 'notide']


@contract('F04', fns=F[:1], n=400, tmo=150)
def one_signal(g):
    bad, base, pm, sl = cases(g, 10, bad=BAD, base=[0, 1], pmode=[0, 1], sats=[[1, 3], [3, 2], [4, 1, 2]])
    setup(g, 4, base, 1, sl, bad, pm)


def two(base):
    def f(g):
        bad, pm, sl = cases(g, 4, bad=['', 'first', 'excluded'], pmode=[0, 1], sats=[[1, 3], [3, 2]])
        setup(g, 4, base, 2, sl, bad, pm)
    f.__name__ = 'two_signals_'+('base' if base else 'rover')
    return contract('F04', fns=F[:1], n=300, tmo=150)(f)


two(0)
two(1)


@contract('F04', fns=F[:1], n=200, prove=False, why='full-size world')
def full_size(g):
    setup(g, 233, g.choice('base', [0, 1]), g.choice('nf', [1, 2]), g.choice('sl', [[150, 32], [1, 155, 179], [32, 1]]),
          g.choice('bad', BAD), g.choice('pm', [0, 1]))


@contract('F04', fns=F[1:], n=200)
def base_and_rover(g):
    """only satellites accepted at both stations are used, row by row"""
    nf = g.choice('nf', [1, 2])
    no, nr = cases(g, 12, rover=[[3, 7, 9, 40], [40, 9, 3], [7, 3]], base=[[9, 3, 7, 40], [3, 40], [40, 7, 3, 12]])
    au, ar = cases_list(g, no, 'u'), cases_list(g, nr, 'r')
    nav = resolve('gnss:Nav')(nf)
    o = resolve('rtk:rtkpos')(nav, np.array([-3957e3, 3310e3, 3737e3]))
    nav.rb = np.array([-3957e3, 3310e3, 3737e3])
    obs, obsb = resolve('gnss:Obs')(), resolve('gnss:Obs')()
    tab = {}
    for nm, ob, l in (('u', obs, no), ('b', obsb, nr)):
        ob.sat = np.array(l)
        ob.P = g.array([g.real('%sP%d_%d' % (nm, s, f), 2e7, 3e7) for s in l for f in range(nf)]).reshape(len(l), nf)
        ob.L = g.array([g.real('%sL%d_%d' % (nm, s, f), 1e8, 2e8) for s in l for f in range(nf)]).reshape(len(l), nf)
    yr = g.array([g.real('y%d_%d' % (s, f), -9, 9) for s in nr for f in range(2*nf)]).reshape(len(nr), 2*nf)
    er = g.array([g.real('e%d_%d' % (s, c), -1, 1) for s in nr for c in range(3)]).reshape(len(nr), 3)
    z = np.zeros(4)

    def qc(self, ob, rs, dts, svh, rr=None):
        return np.array(sorted(ar if rr is not None else au), dtype=int)
    with g.stub('ephemeris:satposs', lambda *a, **k: (z, z, z, z, 4)), g.stub('pppssr:pppos.zdres', lambda *a: (yr, er, z)), \
            g.stub('pppssr:pppos.qcedit', qc):
        y, e, iu, ob = g.call('rtk:rtkpos.base_process', o, obs, obsb, z, z, z)
    com = sorted(set(au) & set(ar))
    n = len(com)
    g.ensure('common satellites', [int(obs.sat[i]) for i in iu] == com and list(ob.sat) == com)
    g.ensure('room for both stations', y.shape == (2*n, 2*nf) and e.shape == (2*n, 3))
    for k, s in enumerate(com):
        i, j = no.index(s), nr.index(s)
        for f in range(2*nf):
            g.ensure('base residual of the satellite', y[n+k, f] == yr[j, f])
        for c in range(3):
            g.ensure('base line of sight of the satellite', e[n+k, c] == er[j, c])
        for f in range(nf):
            g.ensure('single differences of the satellite', And(close(ob.L[k, f], obs.L[i, f]-obsb.L[j, f], 1e-9), close(ob.P[k, f], obs.P[i, f]-obsb.P[j, f], 1e-9)))


def cases_list(g, l, nm):
    m = g.choice('acc'+nm, [0, 1, 2])
    return [s for k, s in enumerate(l) if m != 1 or k != 0] if m < 2 else l[:2]
