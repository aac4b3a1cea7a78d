"""P01 standalone and differential positioning: residuals, smoothing, clock and state of stdpos."""
import math
from contextlib import ExitStack
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, Implies, close, resolve, is_sym
from .f_common import G, T, sigs, freq, CL, sat, cases

S = 'pntpos:stdpos.'
SC = resolve('cssrlib:sCSSRTYPE')
IO = resolve('gnss:uIonoModel')


def engine(nf=1, pmode=0, **kw):
    nav = resolve('gnss:Nav')(nf)
    nav.pmode = pmode
    o = resolve('pntpos:stdpos')(nav, np.array([-3957e3, 3310e3, 3737e3]), **kw)
    return o, nav


@contract('P01', fns=[S+'__init__', S+'ICB'], n=40)
def initial(g):
    """position, clock and (kinematic) velocity and drift, independent at the start"""
    pm, nf, rm = g.choice('pmode', [0, 1]), g.choice('nf', [1, 2]), g.choice('rmode', [0, 1, 2])
    o, nav = engine(nf, pm, rmode=rm, csmooth=True)
    n = 4 if pm == 0 else 8
    g.ensure('size of the state', And(nav.nx == n, len(nav.x) == n, nav.P.shape == (n, n), len(nav.q) == n))
    g.ensure('start at the given position', list(nav.x) == [-3957e3, 3310e3, 3737e3]+[0]*(n-3))
    g.ensure('independent states of finite accuracy', And(np.all(nav.P == np.diag(np.diag(nav.P))), np.all(np.diag(nav.P) > 0), np.all(nav.q > 0)))
    c = g.call(S+'ICB', o)
    g.ensure('place of the clock', c == (3 if pm == 0 else 6))
    g.ensure('accuracy of the clock', And(nav.P[c, c] == nav.sig_cb0**2, nav.q[c] == nav.sig_qcb**2))
    g.ensure('options', And(nav.rmode == rm, nav.csmooth is True))


@contract('P01', fns=['pntpos:ionKlobuchar'], n=300, tmo=90)
def klobuchar(g):
    """broadcast model of IS-GPS-200"""
    if g.symbolic or 'ix:place' in g.given:      # every coefficient at a few places; every place at run time
        lat, lon, el, az = [(0.62, 2.4, 0.3, 1.2), (-1.45, -3.1, 1.5, 5.0), (1.4, 0.0, 0.06, 0.1), (0.0, 1.7, 0.9, 3.3)][g.choice('place', [0, 1, 2, 3])]
    else:
        lat, lon = g.real('lat', -1.5, 1.5), g.real('lon', -3.14, 3.14)
        el, az = g.real('el', 0.05, 1.57), g.real('az', 0, 6.28)
    a = [g.real('a%d' % k, -1e-6, 1e-6) for k in range(4)]
    b = [g.real('b%d' % k, -1e6, 1e6) for k in range(4)]
    tow = g.choice('tow', [0, 43200, 86399, 172800, 604799])
    t = g.call('gnss:gpst2time', 2300, tow)
    sin, cos = [lambda x, f=f: g.call(f, x) for f in (np.sin, np.cos)]
    PI = math.pi
    psi = 0.0137/(el/PI+0.11)-0.022
    p1 = lat/PI+psi*cos(az)
    p = Ite(p1 > 0.416, 0.416, Ite(p1 < -0.416, -0.416, p1))
    g.assume(cos(p*PI) > 0.25)       # |p| <= 0.416
    r = g.call('pntpos:ionKlobuchar', t, g.array([lat, lon, 100.0]), az, el, g.array(a+b).reshape(2, 4))
    lam = lon/PI+psi*sin(az)/cos(p*PI)
    pm = p+0.064*cos((lam-1.617)*PI)
    tt = 43200.0*lam+tow
    tt = tt-86400*(tt//86400)
    F = 1+16*(0.53-el/PI)**3
    amp, per = [h[0]+h[1]*pm+h[2]*pm**2+h[3]*pm**3 for h in (a, b)]
    amp, per = Ite(amp < 0, 0.0, amp), Ite(per < 72000, 72000.0, per)
    x = 2*PI*(tt-50400)/per
    day = And(x > -1.57, x < 1.57)
    want = CL*F*Ite(day, 5e-9+amp*(1-x*x/2+x*x*x*x/24), 5e-9)
    g.assume(Not(And(x > 1.569999, x < 1.570001)))
    g.assume(Not(And(x < -1.569999, x > -1.570001)))
    g.ensure('delay at L1', close(r, want, 1e-6))


@contract('P01', fns=['pntpos:ionmodel'], n=100)
def iono_model(g):
    nav = resolve('gnss:Nav')(1)
    m = g.choice('model', [IO.NONE, IO.KLOBUCHAR, IO.SBAS])
    have = g.choice('have', ['none', 'nomask', 'ok'])
    k, s = g.real('k', 0, 50), g.real('s', 0, 50)
    cs = None
    if have != 'none':
        class CS:
            iodi = -1 if have == 'nomask' else 2
        cs = CS()
    seen = []

    def kl(t, pos, az, el, ion=None):
        seen.append(ion)
        return k
    with ExitStack() as st:
        st.enter_context(g.stub('pntpos:ionKlobuchar', kl))
        st.enter_context(g.stub('pntpos:ionoSBAS', lambda t, pos, az, el, c: (s, 1.0)))
        r = g.call('pntpos:ionmodel', resolve('gnss:gtime_t')(), np.zeros(3), 0.1, 0.5, nav, model=m, cs=cs)
    if m == IO.NONE:
        g.ensure('no model', r == 0)
    elif m == IO.KLOBUCHAR or have != 'ok':
        g.ensure('broadcast model', r == k)
    else:
        g.ensure('delay of the grid, else the broadcast model', r == Ite(s == 0, k, s))
    g.ensure('coefficients in use', all(v is nav.ion for v in seen))


@contract('P01', fns=[S+'csmooth'], n=600, tmo=120, merging=False)
def smoothing(g):
    """weighted mean of the code and the code predicted by the carrier; starts
    again after a gap, a missing measurement or a jump"""
    o, nav = engine(1, 0, csmooth=True)
    ns = g.choice('ns', [2, 100])
    oth = g.choice('other', [0, 1])
    kinds = ['ok', 'gap', 'noP', 'noL', 'jump']
    gt = resolve('gnss:gtime_t')
    t = 1700000000
    n = {}
    sm, Lp, tl = {}, {}, {}
    for k in range(4):
        if k == 0:
            kd = ['ok', 'noP', 'noL'][g.choice('k0', [0, 1, 2])]
        else:
            kd = kinds[g.choice('k%d' % k, range(5))]
        s = [7, 8, 7, 7][k] if oth else 7
        t += 3 if kd == 'gap' else 1
        P = 0.0 if kd == 'noP' else g.real('P%d' % k, 2e7, 3e7)
        L = 0.0 if kd == 'noL' else g.real('L%d' % k, 2e7, 3e7)
        obs = resolve('gnss:Obs')()
        obs.t = gt(t, 0.0)
        fresh = s not in n or t-tl[s] > 1
        miss = kd in ('noP', 'noL')
        if not miss and not fresh:
            pred = sm[s]+(L-Lp[s])
            d = P-pred
            if kd == 'jump':
                g.assume(Or(d >= 10.000001, d <= -10.000001))
            else:
                g.assume(And(d < 9.999999, d > -9.999999))
        r = g.call(S+'csmooth', o, obs, s, P, L, ns)
        if miss:
            want = P
            n.pop(s, None)
        elif fresh or kd == 'jump':
            want, n[s] = P, 1
        else:
            c = min(n[s]+1, ns)
            want = P/c+(1-1/c)*pred
            n[s] = c
        g.ensure('smoothed code', close(r, want, 1e-6, rel=False))
        if not miss:
            sm[s], Lp[s], tl[s] = want, L, t


def observation(g, sl, nf):
    obs = resolve('gnss:Obs')()
    obs.sat = np.array([sat(*q) for q in sl])
    obs.sig = {}
    for s, _ in sl:
        obs.sig[s] = sigs(s, nf)
    obs.t = resolve('gnss:gtime_t')(1700000000, 0.0)
    return obs


SETS = [[(G.GPS, 5), (G.GLO, 7)], [(G.GAL, 36), (G.GPS, 1)], [(G.QZS, 194), (G.BDS, 20)], [(G.GLO, 3), (G.QZS, 199)]]
S15 = {G.GPS: 'C5Q', G.GAL: 'C5Q', G.QZS: 'C5Q'}


@contract('P01', fns=[S+'zdres'], n=500, tmo=120)
def residuals(g):
    trop, iono, rm, cor, sm, sl, pm, ed = cases(g, 40, trop=[0, 1], iono=[0, 1], rmode=[0, 1, 2], cor=['none', 'dgps', 'other'], sm=[0, 1], sats=SETS,
                                               pm=[0, 1], ed=[0, 1])
    if rm:
        sl = [(G.GPS, 5), (G.GPS, 9)] if rm == 1 else [(G.GAL, 5), (G.QZS, 195)]
    nf = 1 if rm == 0 else 2
    o, nav = engine(nf, pm, trop_opt=trop, iono_opt=iono, csmooth=bool(sm), rmode=rm)
    nav.elmin = 0.2
    n = len(sl)
    obs = observation(g, sl, nf)
    nav.glo_ch = {sat(*q): 3 for q in sl if q[0] == G.GLO}
    if ed:
        nav.edt[obs.sat[0]-1, nf-1] = 1
    r_ = lambda nm, lo, hi: g.real(nm, lo, hi)
    P = [[r_('P%d%d' % (i, f), 2e7, 3e7) for f in range(nf)] for i in range(n)]
    L = [[r_('L%d%d' % (i, f), 1e8, 2e8) for f in range(nf)] for i in range(n)]
    obs.P, obs.L = g.array([a for q in P for a in q]).reshape(n, nf), g.array([a for q in L for a in q]).reshape(n, nf)
    dts, dist = [r_('dts%d' % i, -1e-3, 1e-3) for i in range(n)], [r_('rho%d' % i, 2e7, 3e7) for i in range(n)]
    el, ion = [r_('el%d' % i, 0, 1.57) for i in range(n)], [r_('ion%d' % i, 0, 50) for i in range(n)]
    mh, mw = [r_('mh%d' % i, 1, 6) for i in range(n)], [r_('mw%d' % i, 1, 6) for i in range(n)]
    mhr, mwr = [r_('mhr%d' % i, 1, 6) for i in range(n)], [r_('mwr%d' % i, 1, 6) for i in range(n)]
    hs, wet, hsr, wetr = r_('hs', 2, 2.5), r_('wet', 0, 0.5), r_('hsr', 2, 2.5), r_('wetr', 0, 0.5)
    los = [[r_('e%d%d' % (i, c), -1, 1) for c in range(3)] for i in range(n)]
    xs = [r_('x%d' % k, -1e3, 1e3) for k in range(3)]
    clk = r_('clk', -3e5, 3e5)
    x = g.array(xs+[clk] if pm == 0 else xs+[1.0, 2.0, 3.0, clk, 7.0])
    cs = None
    if cor != 'none':
        class CS:
            cssrmode = SC.DGPS if cor == 'dgps' else SC.SBAS_L1
            inet = 3
            posr = np.array([[0.5, 2.2, 7.0], [0.51, 2.3, 8.0], [0.52, 2.4, 9.0], [0.53, 2.5, 11.0]])
        cs = CS()
    rs = [[1e7*(i+1), 2e7, 3.0, 1, 2, 3] for i in range(n)]
    idx = lambda v: int(round(float(v[0])/1e7))-1
    cur, seen = [0], {}
    posu, rref = np.array([0.6, 2.4, 50.0]), np.array([1.0, 2.0, 3.0])

    def geod(rsat, u):
        i = cur[0] = idx(rsat)
        if u is rref:
            return 1.0, ['ref', i]
        for c in range(3):
            g.ensure('range from the receiver', u[c] == xs[c])
        return dist[i], g.array(los[i])

    def azel(pos, e):
        if isinstance(e, list):
            g.ensure('elevation at the reference station', list(pos) == list(CS.posr[2]))
            return 0.0, -1.0-e[1]
        return 0.25, el[cur[0]]

    def tm(t, pos, **k):
        g.ensure('troposphere model', k.get('model') == nav.trpModel)
        return (hs, wet, 1) if pos is posu else (hsr, wetr, 1)

    def mf(t, pos, e_, model=None):
        i = cur[0]
        if pos is posu:
            return mh[i], mw[i]
        g.ensure('mapping at the reference station', e_ == -1.0-i)
        return mhr[i], mwr[i]
    sd = [r_('sm%d' % i, 2e7, 3e7) for i in range(n)]
    sarg = {}

    def smooth(self, ob, s, p, l, *a, **k):
        i = list(obs.sat).index(s)
        sarg[i] = (p, l)
        return sd[i]

    def im(t, pos, az, e_, nv, model=None, cs=None):
        g.ensure('arguments of the ionosphere model', And(az == 0.25, e_ == el[cur[0]], model == nav.ionoModel, pos is posu))
        return ion[cur[0]]

    def p2e(p):
        g.ensure('reference station', list(p) == list(CS.posr[2]))
        return rref
    with ExitStack() as st:
        for path, fn in (('pntpos:ecef2pos', lambda r: posu), ('pntpos:pos2ecef', p2e), ('pntpos:geodist', geod), ('pntpos:satazel', azel),
                         ('pntpos:tropmodel', tm), ('pntpos:tropmapf', mf), ('pntpos:ionmodel', im), (S+'csmooth', smooth)):
            st.enter_context(g.stub(path, fn))
        y, e, az, elo = g.call(S+'zdres', o, obs, cs, None, g.array([a for q in rs for a in q]).reshape(n, 6), g.array([0.0]*(3*n)).reshape(n, 3),
                               g.array(dts), x)
    for i in range(n):
        s = sl[i][0]
        if ed and i == 0:
            g.ensure('an edited satellite has no residual', And(*[y[i, f] == 0 for f in range(nf)]))
            continue
        g.ensure('line of sight and elevation', And(elo[i] == el[i], *[e[i, c] == los[i][c] for c in range(3)]))
        low = el[i] < 0.2
        tu = mh[i]*hs+mw[i]*wet
        tr = tu if trop == 0 else (tu-mhr[i]*hsr-mwr[i]*wetr if cor == 'dgps' else 0)
        fr = [freq(s, f, 3) if rm != 1 else (1575.42e6, 1227.6e6)[f] for f in range(nf)]
        if rm == 0:
            code, car = P[i][0], L[i][0]*(CL/fr[0])
            io = 0 if iono else ion[i]*(1575.42e6/fr[0])**2
        else:
            q = fr[0]**2/(fr[0]**2-fr[1]**2)
            code, car = q*P[i][0]+(1-q)*P[i][1], q*L[i][0]*(CL/fr[0])+(1-q)*L[i][1]*(CL/fr[1])
            io = 0
        if sm:
            if i in sarg:
                g.ensure('code and carrier to smooth', And(close(sarg[i][0], code, 1e-4, rel=False), close(sarg[i][1], car, 1e-3, rel=False)))
            code = sd[i]
        want = code-(dist[i]+clk-CL*dts[i]+tr+io)
        g.ensure('residual', Or(And(low, y[i, 0] == 0), And(Not(low), close(y[i, 0], want, 1e-4, rel=False))))


@contract('P01', fns=[S+'sdres', S+'ddcov', S+'varerr', 'pppssr:pppos.sysidx'], n=500, tmo=120)
def measurements(g):
    """one row per satellite and signal with a residual"""
    rows(g, [(G.GAL, 7), (G.GPS, 5), (G.GAL, 2), (G.GPS, 30)], *cases(g, 20, nf=[1, 2], rm=[0, 1], pm=[0, 1], ed=[0, 1, 2], smode=[1, 2]))


@contract('P01', fns=[S+'sdres', S+'ddcov', S+'varerr', 'pppssr:pppos.sysidx'], n=20, tmo=120)
def measurements_full_sky(g):
    sl = g.choice('sats', [[(G.GPS, k+1) for k in range(15)], [(G.GPS, 2*k+1) for k in range(12)]+[(G.GAL, 3*k+1) for k in range(12)]+[(G.QZS, 195)]])
    rows(g, sl, 1, 0, g.choice('pm', [0, 1]), 2, g.choice('mode', [1, 2]))


def rows(g, sl, nf, rm, pm, ed, smode):
    o, nav = engine(nf, pm, rmode=rm)
    nav.smode = smode
    obs = observation(g, sl, nf)
    n = len(sl)
    no = {0: [], 1: [0], 2: [1, 2]}[ed]
    for i in no:
        nav.edt[obs.sat[i]-1, i % nf] = 1
    y = [[g.real('y%d%d' % (i, f), 1, 100) if f == 0 and i != 3 or f == 1 and rm == 0 and i != 0 else g.choice('z', [0.0, 5.0]) if f == 0 else 0.0
          for f in range(nf)] for i in range(n)]
    el = [g.real('el%d' % i, 0.18, 1.5) for i in range(n)]
    los = [[g.real('e%d%d' % (i, c), -1, 1) for c in range(3)] for i in range(n)]

    def dg(e_, nv):
        return 3*e_+1
    sin = lambda v: g.call(np.sin, v)
    with g.stub('pntpos:vardgps', dg):
        v, H, R = g.call(S+'sdres', o, obs, nav.x, g.array([a for q in y for a in q]).reshape(n, nf), g.array([a for q in los for a in q]).reshape(n, 3),
                         obs.sat, g.array(el))
    c = 3 if pm == 0 else 6
    rows = []
    for s in obs.sig:
        for f in range(nf if rm == 0 else 1):
            for i in range(n):
                if sl[i][0] == s and i not in no:
                    w = y[i][f]
                    if is_sym(w) or w != 0:
                        rows.append((i, f))
    g.ensure('number of rows', And(len(v) == len(rows), H.shape == (len(rows), nav.nx), R.shape == (len(rows), len(rows))))
    if len(v) != len(rows):
        return
    for k, (i, f) in enumerate(rows):
        g.ensure('residual of the row', v[k] == y[i][f])
        for j in range(nav.nx):
            w = -los[i][j] if j < 3 else (1.0 if j == c else 0.0)
            g.ensure('line of sight and clock', H[k, j] == w)
        s1 = sin(el[i])
        s1 = Ite(s1 < math.radians(0.1), math.radians(0.1), s1)
        s2 = s1*s1
        for j in range(len(rows)):
            if j != k:
                g.ensure('independent measurements', R[k, j] == 0)
            elif smode == 2:
                g.ensure('variance', R[k, k] == 3*el[i]+1)
            else:
                g.ensure('variance', close((R[k, k]-0.25)*s2, 0.0625, 1e-9))


@contract('P01', fns=[S+'udstate'], n=300)
def propagate(g):
    """constant velocity and clock drift; the noise grows with time"""
    pm = g.choice('pmode', [0, 1])
    o, nav = engine(1, pm)
    n = nav.nx
    tt = g.choice('dt', [0, 1, 30])
    x = [g.real('x%d' % k, -1e3, 1e3) for k in range(n)]
    P = [[None]*n for _ in range(n)]
    for i in range(n):
        for j in range(i+1):
            P[i][j] = P[j][i] = g.real('P%d_%d' % (i, j), -10, 10)
    nav.x = g.array(x)
    nav.P = g.array([a for r in P for a in r]).reshape(n, n)
    obs = observation(g, [(G.GPS, 5)], 1)
    nav.t = resolve('gnss:gtime_t')(obs.t.time-tt, 0.0)
    g.call(S+'udstate', o, obs)
    F = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    if pm:
        for k in range(3):
            F[k][3+k] = float(tt)
        F[6][7] = float(tt)
    mul = lambda A, B: [[sum(A[i][k]*B[k][j] for k in range(n) if not (isinstance(A[i][k], float) and A[i][k] == 0)) for j in range(n)] for i in range(n)]
    tr = lambda A: [list(r) for r in zip(*A)]
    W = tr(mul(F, tr(mul(F, P))))
    for i in range(n):
        g.ensure('predicted state', close(nav.x[i], sum(F[i][k]*x[k] for k in range(n)), 1e-9))
        for j in range(n):
            g.ensure('predicted covariance', close(nav.P[i, j], W[i][j]+(nav.q[i]*tt if i == j else 0), 1e-6))


@contract('P01', fns=[S+'process'], n=400, tmo=120, merging=False)
def epoch(g):
    """one epoch: accepted satellites enter, a clock jump is taken over at once"""
    pm, cor, rej, nobs, jump = cases(g, 24, pm=[0, 1], cor=['none', 'dgps', 'sbas'], rej=[0, 1, 3], nobs=[6, 5, 3], jump=[0, 1])
    o, nav = engine(1, pm)
    sl = [(G.GPS, 5), (G.GAL, 7), (G.GPS, 30), (G.QZS, 195), (G.GAL, 11), (G.GPS, 9)][:nobs]
    obs = observation(g, sl, 1)
    n = len(sl)
    c = 3 if pm == 0 else 6
    x0 = [g.real('x%d' % k, -1e3, 1e3) for k in range(nav.nx)]
    nav.x = g.array(x0)
    nav.P = g.array([0.0]*nav.nx**2).reshape(nav.nx, nav.nx)
    nav.t = resolve('gnss:gtime_t')(obs.t.time-1, 0.0)
    t0 = nav.t
    y = [g.real('y%d' % i, 150, 5e5) if jump else g.real('y%d' % i, -30, 30) for i in range(n)]
    el = [0.5+0.1*i for i in range(n)]
    az = [1.0*i for i in range(n)]
    acc = [i for i in range(n) if i not in ([], [1], None, [0, 2, 4])[rej]]
    class LC:
        t0 = {}
    class CS:
        cssrmode = SC.DGPS if cor == 'dgps' else SC.SBAS_L1
        lc = [LC()]
        obad = type('O', (), {})()
        def set_dgps_corr(self, r):
            return 12.5
    cs = None if cor == 'none' else CS()
    log = []

    def poss(ob, nv, cs=None, orb=None):
        log.append(('poss', ob is obs, cs))
        return 'rs', 'vs', 'dts', 'svh', n

    def qc(self, ob, rs, dts, svh, rr=None):
        g.ensure('editing of these satellites', And(ob is obs, rs == 'rs', dts == 'dts', svh == 'svh'))
        return np.array([obs.sat[i] for i in acc])

    def ud(self, ob):
        log.append('ud')
        self.nav.x = g.array([v+1.0 for v in x0])

    def zd(self, ob, cs_, bsx, rs, vs, dts, x, rtype=1):
        g.ensure('residuals at the predicted state', And(ob is obs, cs_ is cs, rs == 'rs', vs == 'vs', dts == 'dts',
                                                         *[x[k] == x0[k]+1.0 for k in range(nav.nx)]))
        return g.array(y).reshape(n, 1), g.array([float(i) for i in range(3*n)]).reshape(n, 3), np.array(az), np.array(el)

    def sd(self, ob, x, y_, e, s, elv):
        g.ensure('accepted satellites only', And(list(s) == [obs.sat[i] for i in acc], list(elv) == [el[i] for i in acc],
                                                 *[y_[k, 0] == y[i] for k, i in enumerate(acc)]))
        g.ensure('lines of sight of the accepted satellites', all(float(e[k, q]) == 3*i+q for k, i in enumerate(acc) for q in range(3)))
        return g.array([y[i] for i in acc]), 'H', 'R'
    upd = {}

    def kf(self, x, P, H, v, R):
        upd['x'], upd['v'], upd['H'], upd['R'] = list(x), list(v), H, R
        return g.array([q+2.0 for q in x]), 'P', 'S'

    def dp(a, e, *r, **k):
        upd['dop'] = (list(a), list(e))
        return 'dops'
    with ExitStack() as st:
        for path, fn in (('pntpos:satposs', poss), ('pppssr:pppos.qcedit', qc), (S+'udstate', ud), (S+'zdres', zd), (S+'sdres', sd),
                         ('pppssr:pppos.kfupdate', kf), ('pntpos:dops', dp)):
            st.enter_context(g.stub(path, fn))
        r = g.call(S+'process', o, obs, cs=cs)
    if n < 4 or len(acc) < 4:
        g.ensure('too few satellites leave the state', And(*[nav.x[k] == x0[k] for k in range(nav.nx)], upd == {}))
        return
    m = sum(y[i] for i in acc)/len(acc)
    for k in range(nav.nx):
        want = x0[k]+1.0
        if k == c and jump:
            want = want+m
        g.ensure('state before the update', close(upd['x'][k], want, 1e-6, rel=False))
        g.ensure('state after the update', close(nav.x[k], upd['x'][k]+2.0, 1e-6, rel=False))
    for k, i in enumerate(acc):
        g.ensure('innovation', close(upd['v'][k], y[i]-m if jump else y[i], 1e-6, rel=False))
    g.ensure('update', And(upd['H'] == 'H', upd['R'] == 'R', nav.P == 'P'))
    g.ensure('epoch and number of satellites', And(nav.t.time == obs.t.time, o.nsat == len(acc), o.dop == 'dops'))
    g.ensure('dilution of precision of the satellites in use', upd['dop'] == ([az[i] for i in acc], [el[i] for i in acc]))
    g.ensure('solution mode', nav.smode == (1 if cs is None else 2))
    g.ensure('orbits with the corrections', log[0] == ('poss', True, cs))
    if cor == 'dgps':
        g.ensure('distance to the reference station', nav.baseline == 12.5)
    if cor == 'sbas':
        g.ensure('mode of the corrections', nav.cssrmode == SC.SBAS_L1)
