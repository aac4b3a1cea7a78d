"""F06 ambiguity resolution: pairs, acceptance, update by fixed ambiguities, epoch flow."""
from contextlib import ExitStack
import numpy as np
from vc.api import contract, And, Or, Not, Iff, close, resolve, is_sym
from vc import ring
from vc.sym import C
from .f_common import G, engine, cases, Patch, Few

W = 5
SYS = {1: G.GPS, 2: G.GPS, 3: G.GPS, 4: G.GAL, 5: G.GAL}
F = ['pppssr:pppos.ddidx', 'pppssr:pppos.resamb_lambda', 'pppssr:pppos.restamb', 'pppssr:pppos.holdamb']


class Sink:
    def write(self, s):
        pass


def world(nf, pm=0, w=W):
    with Patch('pppssr', uGNSS=Few(w)):
        o, nav = engine(nf, pm, trop_opt=0, iono_opt=0)
    nav.vsat = np.zeros((w, nf), dtype=int)
    nav.el = np.zeros(w)
    nav.fout = Sink()
    return o, nav


def patched(g, w=W, sys=SYS):
    st = ExitStack()
    st.enter_context(Patch('pppssr', uGNSS=Few(w)))
    st.enter_context(g.stub('gnss:sat2prn', lambda s: (sys[int(s)], int(s))))
    return st


@contract('F06', fns=F[:1], n=800, tmo=60)
def pairs(g):
    """differenced ambiguities: each usable satellite with the first usable one of its constellation"""
    nf, tracked, free, lost, old = cases(g, 24, nf=[1, 2], tracked=[[1, 2, 3, 4, 5], [2, 3, 5], [5, 4, 3], [1], []],
                                         free=[[1, 2], [1, 3], [2, 5], [4, 5], [3, 4]], vs=[0, 1], old=[0, 1])
    usable_pairs(g, nf, tracked, free, lost, old)


# a sky of thirty satellites, the systems interleaved, and of all seven systems
SKY = {s: (G.GPS if s < 16 else G.GAL if s < 30 else G.QZS) for s in range(1, 31)}
SYSTEMS = [G.GPS, G.GAL, G.QZS, G.BDS, G.GLO, G.SBS, G.IRN]
ALL = {s: SYSTEMS[(s*5) % 7] for s in range(1, 31)}


@contract('F06', fns=F[:1], n=40, tmo=60)
def pairs_full_sky(g):
    nf, sky, lost, old = cases(g, 4, nf=[1, 2], sky=[SKY, ALL], lost=[0, 1], old=[0, 1])
    usable_pairs(g, nf, list(range(30, 0, -1)), [1, 14], lost, old, 30, sky)


def usable_pairs(g, nf, tracked, free, lost, old, W=W, SYS=SYS):
    o, nav = world(nf, w=W)
    nav.elmaskar = 0.35
    el, x, vs = {}, {}, {}
    for s in range(1, W+1):
        el[s] = g.real('el%d' % s, 0, 1.57) if s in free else 0.8
        for f in range(nf):
            x[s, f] = g.real('x%d%d' % (s, f), -50, 50) if s in free else 7.0+s
            vs[s, f] = 1
    z = free[0]
    vs[z, nf-1] = lost
    nav.el = g.array([el[s] for s in range(1, W+1)])
    X = [0.0]*nav.na+[x[s, f] for f in range(nf) for s in range(1, W+1)]
    nav.x = g.array(X)
    nav.vsat = np.array([[vs[s, f] for f in range(nf)] for s in range(1, W+1)])
    nav.fix = np.full((W, nf), 2) if old else np.zeros((W, nf), dtype=int)
    with patched(g, W, SYS):
        ix = g.call('pppssr:pppos.ddidx', o, nav, np.array(tracked, dtype=int))
    ok = {(s, f): And(x[s, f] != 0, el[s] >= 0.35) if s in tracked and vs[s, f] else False for s in SYS for f in range(nf)}
    got = [(int(a), int(b)) for a, b in ix]
    want = []
    for sysm in SYSTEMS:
        for f in range(nf):
            u = [s for s in SYS if SYS[s] == sysm and (bool(ok[s, f]) if not is_sym(ok[s, f]) else C.branch(ok[s, f].z))]
            want += [(nav.na+W*f+u[0]-1, nav.na+W*f+s-1) for s in u[1:]]
            for s in SYS:
                if SYS[s] == sysm:
                    g.ensure('fix flag of the usable satellites', (int(nav.fix[s-1, f]) == 2) == (s in u))
    g.ensure('pairs', got == want)


@contract('F06', fns=F[1:3], n=600, tmo=60)
def fixed_solution(g):
    """the accepted integers update the other states by least squares; the float state is kept"""
    case, pm, nf, parmode, acc, zero = cases(g, 24, ix=[[(1, 2)], [(1, 2), (1, 3)], [(4, 5)], [(2, 3), (4, 5)]], pm=[0], nf=[1, 2],
                                             parmode=[1, 2], acc=[0, 1, 1, 1], zero=[0, 0, 1])
    if g.symbolic:
        C.ringnorm = True
        C.merging = False
    o, nav = world(nf, pm)
    na, nx = nav.na, nav.nx
    nb = len(case)
    f = nf-1
    ix = [(na+W*f+a-1, na+W*f+b-1) for a, b in case]
    used = sorted({i for p in ix for i in p})
    keep = [0, 1, 2]+used
    X = [g.real('x%d' % i, -50, 50) if i in keep else 0.0 for i in range(nx)]
    P = [[0.0]*nx for _ in range(nx)]
    if g.symbolic:
        for a in keep:
            for b in keep:
                if b <= a:
                    P[a][b] = P[b][a] = g.real('P%d_%d' % (a, b), -9, 9)
    else:
        k = len(keep)
        M = np.array([[g.real('m%d_%d' % (i, j), -1, 1) for j in range(k)] for i in range(k)])
        Q = M@M.T+0.1*np.eye(k)
        for i, a in enumerate(keep):
            for j, b in enumerate(keep):
                P[a][b] = float(Q[i, j])
    nav.x, nav.P = g.array(X), g.array([v for r in P for v in r]).reshape(nx, nx)
    nav.thresar = 3.0
    nav.monlevel = 1
    if g.symbolic:
        nav.xa = nav.Pa = None
    b = [[g.int('b%d_%d' % (i, j), -60, 60)*1.0 for j in range(2)] for i in range(nb)]
    s0 = 0.0 if zero else g.real('s0', 0.01, 50)
    s1 = g.real('s1', 0.01, 500)
    nfix = nb if acc else 0
    got = {}

    def mlambda(y, Qb, ncands=2, parmode=1, P0=0.995):
        got['y'], got['Qb'] = [v for v in y], [[v for v in r] for r in Qb]
        got['mode'] = parmode
        return g.array([v for r in b for v in r]).reshape(nb, 2), g.array([s0, s1]), nfix, 0.5

    def ddidx(self, nv, sat):
        nv.fix = np.zeros((W, nf), dtype=int)
        for p in case:
            for s in p:
                nv.fix[s-1, f] = 2
        return np.array(ix)
    y = [X[i]-X[j] for i, j in ix]
    Qb = [[P[i][k]-P[j][k]-P[i][m]+P[j][m] for k, m in ix] for i, j in ix]
    det = Qb[0][0] if nb == 1 else Qb[0][0]*Qb[1][1]-Qb[0][1]*Qb[1][0]
    g.assume(det != 0)
    if not zero:
        g.assume(Or(s1-3*s0 > 1e-6, 3*s0-s1 > 1e-6))
    with patched(g), g.stub('mlambda:mlambda', mlambda), g.stub('pppssr:pppos.ddidx', ddidx):
        n_, xa = g.call('pppssr:pppos.resamb_lambda', o, np.arange(1, W+1), parmode, 0.99)
    for i in range(nb):
        g.ensure('differenced ambiguities', close(got['y'][i], y[i], 1e-9, rel=False))
        for j in range(nb):
            g.ensure('their covariance', close(got['Qb'][i][j], Qb[i][j], 1e-9, rel=False))
    g.ensure('resolution mode handed on', got['mode'] == parmode)
    for i in range(nx):
        g.ensure('float solution unchanged', And(nav.x[i] == X[i], *[nav.P[i, j] == P[i][j] for j in range(nx)]))
    ratio = True if zero else s1 >= 3*s0
    accept = And(nfix > 0, Or(parmode == 2, ratio))
    g.ensure('accepted by the ratio test only', Iff(n_ > 0, accept))
    if n_ > 0:
        inv = [[1/det]] if nb == 1 else [[Qb[1][1]/det, -Qb[0][1]/det], [-Qb[1][0]/det, Qb[0][0]/det]]
        Qab = [[P[a][i]-P[a][j] for i, j in ix] for a in range(na)]
        r = [y[i]-b[i][0] for i in range(nb)]
        K = [[sum((Qab[a][k]*inv[k][j] for k in range(nb)), 0) for j in range(nb)] for a in range(na)]
        from .F03_kalman import equal
        for a in range(na):
            w = X[a]-sum((K[a][j]*r[j] for j in range(nb)), 0)
            g.ensure('position with fixed ambiguities', And(equal(nav.xa[a], w, 1e3), equal(xa[a], w, 1e3)))
            for c in range(na):
                g.ensure('covariance with fixed ambiguities', equal(nav.Pa[a, c], P[a][c]-sum((K[a][j]*Qab[c][j] for j in range(nb)), 0), 1e3))
        for k, (i, j) in enumerate(ix):
            g.ensure('fixed difference restored', close(xa[i]-xa[j], b[k][0], 1e-6, rel=False))
            if k == 0 or ix[k-1][0] != i:
                g.ensure('reference ambiguity kept', xa[i] == X[i])
        for i in range(na, nx):
            if i not in used:
                g.ensure('other ambiguities kept', xa[i] == X[i])


@contract('F06', fns=F[2:3], n=40, tmo=60)
def fixed_full_sky(g):
    """restored ambiguities of many satellites: every difference takes its own integer"""
    nf, sky, p = cases(g, 4, nf=[1, 2], sky=[SKY, ALL], p=[0, 1])
    W = 30
    o, nav = world(nf, 0, W)
    na, nx = nav.na, nav.nx
    fix = [[2 if (s*7+f) % 5 or p else (s+f) % 4 for s in range(W)] for f in range(nf)]
    nav.fix = np.array(fix).T.copy()
    X, A = [g.real('x%d' % i, -50, 50) for i in range(nx)], [g.real('a%d' % i, -50, 50) for i in range(na)]
    nav.x, nav.xa = g.array(X), g.array(A)
    want, ref = [], set()
    for sysm in SYSTEMS:
        for f in range(nf):
            u = [s for s in sky if sky[s] == sysm and fix[f][s-1] == 2]
            want += [(na+W*f+u[0]-1, na+W*f+s-1) for s in u[1:]]
            ref |= {na+W*f+u[0]-1} if len(u) > 1 else set()
    b = [g.int('b%d' % i, -60, 60)*1.0 for i in range(len(want))]
    with patched(g, W, sky):
        xa = g.call('pppssr:pppos.restamb', o, g.array(b), len(want))
    for (i, j), k in zip(want, b):
        g.ensure('fixed difference restored', close(xa[i]-xa[j], k, 1e-6, rel=False))
    done = {j for _, j in want}
    for i in range(nx):
        if i not in done:
            g.ensure('other states kept', xa[i] == (A[i] if i < na else X[i]))
        g.ensure('float solution unchanged', nav.x[i] == X[i])


@contract('F06', fns=F[3:], n=400)
def holding(g):
    """fix-and-hold: one tight constraint per fixed pair"""
    nf = g.choice('nf', [1, 2])
    hold(g, nf, [g.choice('fx%d' % f, [(0, 0, 0, 0, 0), (2, 2, 2, 2, 2), (2, 0, 2, 1, 2), (0, 2, 2, 2, 0), (3, 2, 2, 0, 0), (0, 2, 0, 2, 2)]) for f in range(nf)])


@contract('F06', fns=F[3:], n=20)
def holding_full_sky(g):
    nf, sky, p = cases(g, 4, nf=[1, 2], sky=[SKY, ALL], p=[0, 1])
    hold(g, nf, [[2 if (s*7+f) % 5 or p else (s+f) % 4 for s in range(30)] for f in range(nf)], 30, sky)


def hold(g, nf, fx, W=W, SYS=SYS):
    o, nav = world(nf, 0, W)
    na, nx = nav.na, nav.nx
    X, A = [g.real('x%d' % i, -50, 50) for i in range(nx)], [g.real('a%d' % i, -50, 50) for i in range(nx)]
    nav.x = g.array(X)
    P0 = nav.P
    nav.fix = np.array([[fx[f][s] for f in range(nf)] for s in range(W)])
    got = []

    def kf(self, x, P, H, v, R):
        got.append((x, P, H, v, R))
        return 'x', 'P', 'S'
    with patched(g, W, SYS), g.stub('pppssr:pppos.kfupdate', kf):
        g.call('pppssr:pppos.holdamb', o, g.array(A))
    want = []
    for sysm in SYSTEMS:
        for f in range(nf):
            u = [s for s in SYS if SYS[s] == sysm and fx[f][s-1] == 2]
            want += [(na+W*f+u[0]-1, na+W*f+s-1) for s in u[1:]]
    for f in range(nf):
        for s in range(W):
            g.ensure('held ambiguities are marked', int(nav.fix[s, f]) == (3 if fx[f][s] == 2 else fx[f][s]))
    g.ensure('update only with a constraint', len(got) == (1 if want else 0))
    if want:
        x, P, H, v, R = got[0]
        g.ensure('size', H.shape == (len(want), nx) and len(v) == len(want) and R.shape == (len(want), len(want)))
        g.ensure('state and covariance of the filter', P is P0 and And(*[x[i] == X[i] for i in range(nx)]) and nav.x == 'x' and nav.P == 'P')
        for k, (i, j) in enumerate(want):
            g.ensure('difference held', close(v[k], (A[i]-A[j])-(X[i]-X[j]), 1e-9, rel=False))
            g.ensure('design', all(float(H[k, c]) == (1 if c == i else -1 if c == j else 0) for c in range(nx)))
            g.ensure('noise', all((float(R[k, c]) == 0) if c != k else 0 < float(R[k, c]) <= 0.01 for c in range(len(want))))


class Rec:
    pass


@contract('F06', fns=['pppssr:pppos.process', 'rtk:rtkpos.base_process', 'pppssr:pppos.valpos'], n=500, tmo=60)
def epoch(g):
    """one epoch: too few satellites change nothing, the update is stored, fixing does not disturb the float state"""
    nobs, nuse, ned, arm, nb, base = cases(g, 30, nobs=[0, 5, 7], nuse=[5, 7], ned=[5, 6, 7], arm=[0, 1, 3], nb=[-1, 0, 4], base=[0, 1])
    o, nav = world(1, 0)
    gt = resolve('gnss:gtime_t')
    nav.armode, nav.parmode, nav.par_P0 = arm, 2, 0.97
    nav.el = np.zeros(233)
    nav.vsat = np.ones((233, 1), dtype=int)          # marks left by an earlier epoch
    nav.outc = np.full((233, 1), 3)
    S = np.array([3, 12, 7, 20, 31, 9, 28][:nobs])
    obs = Rec()
    obs.sat, obs.t = S, gt(1700000000, 0.0)
    nav.t = gt(1690000000, 0.0)
    nav.rsun = np.zeros(3)
    nav.t_rsun = obs.t
    nx = nav.nx
    X0 = [g.real('x%d' % i, -9, 9) for i in range(nx)]
    X1 = [g.real('u%d' % i, -9, 9) for i in range(nx)]
    X2 = [g.real('k%d' % i, -9, 9) for i in range(nx)]
    XA = [g.real('a%d' % i, -9, 9) for i in range(nx)]
    nav.x = g.array(X0)
    nav.P = P0 = np.eye(nx)
    P2 = np.eye(nx)*2
    cs, bsx, orb = object(), object(), object()
    log = []
    vs = [g.choice('vs', [0, 1, 1]) for _ in range(1)][0]
    edited = [int(s) for s in S[::-1][:ned]]
    keep = [k for k in range(nobs) if int(S[k]) in edited]
    y0 = np.arange(nobs*2, dtype=float).reshape(nobs, 2)+1
    el0 = np.arange(nobs)/10+0.1

    def satposs(ob, nv, cs=None, orb=None):
        log.append(('satposs', cs, orb))
        return 'rs', 'vs', 'dts', 'svh', nuse

    def qcedit(self, ob, rs, dts, svh):
        log.append(('qcedit', rs, dts, svh))
        return np.array(edited)

    def ud(self, ob):
        log.append(('ud', ob))
        self.nav.x = g.array(X1)

    def zd(self, ob, c, b, rs, vs, dts, rr, rtype=1):
        log.append(('zd', c, b, rs, vs, dts, [v for v in rr]))
        return y0, np.zeros((nobs, 3)), el0

    def sd(self, ob, x, y, e, sat, el):
        log.append(('sd', [v for v in x], y, sat, el))
        for s in sat:
            if vs or s != sat[0]:
                self.nav.vsat[s-1, 0] = 1
        return np.zeros(2), 'H%d' % len(log), np.eye(2)

    def kf(self, x, P, H, v, R):
        log.append(('kf', [a for a in x], P, H))
        return g.array(X2), P2, None

    def ra(self, sat, pmode, p0):
        log.append(('ra', sat, pmode, p0))
        g.ensure('ambiguities of satellites used in this epoch', all(self.nav.vsat[q, 0] == ((q+1) in sat and (vs or q+1 != sat[0])) for q in range(233)))
        return nb, g.array(XA)
    with ExitStack() as st:
        for path, fn in (('pppssr:satposs', satposs), ('pppssr:pppos.qcedit', qcedit), ('pppssr:pppos.udstate', ud), ('pppssr:pppos.zdres', zd),
                         ('pppssr:pppos.sdres', sd), ('pppssr:pppos.kfupdate', kf), ('pppssr:pppos.resamb_lambda', ra),
                         ('pppssr:pppos.holdamb', lambda self, xa: log.append(('hold', [v for v in xa])))):
            st.enter_context(g.stub(path, fn))
        g.call('pppssr:pppos.process', o, obs, cs, orb, bsx)
    names = [q[0] for q in log]
    if nobs == 0 or nuse < 6 or len(keep) < 6:
        g.ensure('state unchanged without enough satellites', And(nav.P is P0, *[nav.x[i] == X0[i] for i in range(nx)]))
        g.ensure('no update without enough satellites', 'ud' not in names and 'kf' not in names)
        return
    g.ensure('orbits with the corrections given', log[0] == ('satposs', cs, orb))
    g.ensure('filter state is the updated one', And(nav.P is P2, *[nav.x[i] == X2[i] for i in range(nx)]))
    z = [q for q in log if q[0] == 'zd']
    g.ensure('same corrections in every residual', all(q[1] is cs and q[2] is bsx and q[3:6] == ('rs', 'vs', 'dts') for q in z))
    k = [q for q in log if q[0] == 'kf']
    g.ensure('one update, of the propagated state', And(len(k) == 1, np.array_equal(np.asarray(k[0][2], dtype=float), np.asarray(P0, dtype=float)), *[k[0][1][i] == X1[i] for i in range(nx)]))
    g.ensure('residuals of the propagated position', And(*[z[0][6][c] == X1[c] for c in range(3)]))
    sds = [q for q in log if q[0] == 'sd']
    for q in sds:
        g.ensure('residuals of the accepted satellites', list(map(int, q[3])) == [int(S[j]) for j in keep] and
                 np.array_equal(np.asarray(q[2][:len(keep)], dtype=float), y0[keep]) and [float(v) for v in q[4]] == [float(el0[j]) for j in keep])
    for j in keep:
        g.ensure('elevations kept for the ambiguity selection', float(nav.el[S[j]-1]) == float(el0[j]))
    g.ensure('resolution only when enabled', ('ra' in names) == (arm > 0))
    fixed = arm > 0 and nb > 0
    g.ensure('solution mode', nav.smode == (4 if fixed else 5))
    g.ensure('hold only in that mode', ('hold' in names) == (fixed and arm == 3))
    g.ensure('settings of the resolution', all(q[2] == 2 and q[3] == 0.97 for q in log if q[0] == 'ra'))
    g.ensure('time of the solution', nav.t == obs.t)
    for j, m in enumerate(keep):
        used = vs if j == 0 else 1
        g.ensure('outage counter', int(nav.outc[S[m]-1, 0]) == (0 if used else 3))
