"""F01 state vector: layout, initial values and time propagation."""
import math
import numpy as np
from vc.api import contract, And, Or, close, resolve, is_sym, Iff
from .f_common import G, T, sigs, freq, CL, sat, engine, cases, Patch, Few, cfg

F = ['pppssr:pppos.__init__', 'pppssr:pppos.udstate', 'pppssr:pppos.initx', 'pppssr:pppos.IB', 'pppssr:pppos.II', 'pppssr:pppos.IT']
OPT = [(1, 1), (1, 0), (0, 1), (0, 0), (2, 2), (1, 2), (2, 1)]


@contract('F01', fns=F[3:], n=300)
def state_index(g):
    """every state has its own place"""
    nf = g.choice('nf', [1, 2, 3])
    pm = g.choice('pmode', [0, 1])
    trop, iono = g.choice('opt', OPT)
    o, nav = engine(nf, pm, trop_opt=trop, iono_opt=iono)
    base = 6 if pm else 3
    s, q = g.int('s', 1, 233), g.int('q', 1, 233)
    f, h = g.int('f', 0, nf-1), g.int('h', 0, nf-1)
    na = nav.na
    g.ensure('number of states', And(na == base+(trop == 1)+(233 if iono == 1 else 0), nav.nx == na+233*nf))
    a, b = g.call('pppssr:pppos.IB', o, s, f, na), g.call('pppssr:pppos.IB', o, q, h, na)
    g.ensure('ambiguity in range', And(a >= na, a < nav.nx))
    g.ensure('ambiguities of different satellites or signals differ', Iff(a == b, And(s == q, f == h)))
    if iono == 1:
        c, d = g.call('pppssr:pppos.II', o, s, na), g.call('pppssr:pppos.II', o, q, na)
        g.ensure('ionosphere after position and troposphere', And(c >= base+(trop == 1), c < na))
        g.ensure('ionosphere of different satellites differs', Iff(c == d, s == q))
    if trop == 1:
        g.ensure('troposphere after position', g.call('pppssr:pppos.IT', o, na) == base)


@contract('F01', fns=F[:1]+F[3:], n=400, prove=False, why='full-size state, no symbolic input')
def initial_state(g):
    nf = g.choice('nf', [1, 2, 3])
    pm = g.choice('pmode', [0, 1])
    trop, iono = g.choice('opt', OPT)
    sg = {k: g.real(k, 1e-4, 50) for k in ('sig_p0', 'sig_v0', 'sig_ztd0', 'sig_qp', 'sig_qv', 'sig_qztd', 'sig_qion', 'sig_qb')}
    from copy import deepcopy
    dflt = deepcopy(resolve('gnss:default_config'))
    c = cfg(trop_opt=trop, iono_opt=iono, **sg)
    c0 = deepcopy(c)
    nav = resolve('gnss:Nav')(nf)
    nav.pmode = pm
    p0 = np.array([g.real('p%d' % i, -7e6, 7e6) for i in range(3)])
    o = g.call('pppssr:pppos', nav, p0, config=c)
    g.ensure('the configuration is unchanged', c == c0 and resolve('gnss:default_config') == dflt)
    x, d, q = np.zeros(nav.nx), np.zeros(nav.nx), np.zeros(nav.nx)
    x[:3], d[:3], q[:3] = p0, sg['sig_p0']**2, sg['sig_qp']**2
    b = 3
    if pm:
        d[3:6], q[3:6] = sg['sig_v0']**2, sg['sig_qv']**2
        b = 6
    if trop == 1:
        d[b], q[b] = sg['sig_ztd0']**2, sg['sig_qztd']**2
        b += 1
    if iono == 1:
        q[b:b+233] = sg['sig_qion']**2
        b += 233
    q[b:] = sg['sig_qb']**2
    g.ensure('initial state', np.array_equal(nav.x, x))
    g.ensure('initial covariance', np.allclose(nav.P, np.diag(d), rtol=1e-12))
    qq = np.zeros(nav.nx)
    qq[:nav.nq] = nav.q[:nav.nq]
    g.ensure('process noise of every state', np.allclose(qq, q, rtol=1e-12, atol=0))


@contract('F01', fns=F[:1], n=150, prove=False, why='construction of an object, no symbolic input')
def options_by_argument(g):
    """options given to the constructor override the configuration of this object only"""
    a = {k: g.choice(k, [-1, 0, 1, 2]) for k in ('trop_opt', 'iono_opt', 'phw_opt')}
    c = {k: g.choice('c'+k, [0, 1, 2]) for k in a}
    use = g.choice('default', [0, 1])
    dflt = resolve('gnss:default_config')['nav']
    nav = resolve('gnss:Nav')(1)
    g.call('pppssr:pppos', nav, np.zeros(3), config=None if use else cfg(**c), **a)
    nav2 = resolve('gnss:Nav')(1)
    g.call('pppssr:pppos', nav2, np.zeros(3))
    for k in a:
        g.ensure('option', getattr(nav, k) == (a[k] if a[k] >= 0 else dflt[k] if use else c[k]))
        g.ensure('the next object has the defaults', getattr(nav2, k) == {'trop_opt': 1, 'iono_opt': 1, 'phw_opt': 1}[k])


def step(g, world, sats, nf, pm, trop, iono, state, obs_kind, edt, outc):
    """one time propagation; world: number of satellites of the world"""
    few = world != 233
    if few:
        with Patch('pppssr', uGNSS=Few(world)):
            o, nav = engine(nf, pm, trop_opt=trop, iono_opt=iono)
    else:
        o, nav = engine(nf, pm, trop_opt=trop, iono_opt=iono)
    sysof = lambda s: G.GPS if s <= 2 else G.GLO
    over = lambda k, f: (outc[k] if np.ndim(outc[k]) == 0 else outc[k][f])
    nav.glo_ch = {s: -3 for s in sats}
    nx, na = nav.nx, nav.na
    ib = lambda s, f: na+world*f+s-1
    ii = lambda s: na-world+s-1
    base = 6 if pm else 3
    x = [0.0]*nx
    for k in range(base):
        x[k] = g.real('x%d' % k, -100, 100)
    for k in range(len(sats)):
        s = sats[k]
        for f in range(nf):
            if state[k] == 'on':
                x[ib(s, f)] = g.real('amb%d_%d' % (s, f), -1e5, 1e5)
                g.assume(Or(x[ib(s, f)] >= 1, x[ib(s, f)] <= -1))
        if iono == 1 and state[k] == 'on':
            x[ii(s)] = g.real('ion%d' % s, -100, 100)
            g.assume(Or(x[ii(s)] >= 0.1, x[ii(s)] <= -0.1))
        for f in range(nf):
            nav.outc[s-1, f] = over(k, f)
        if edt[k]:
            nav.edt[s-1, nf-1] = 1
    P = np.zeros((nx, nx), dtype=object)
    act = list(range(base+(trop == 1)))+[ii(s) for s in sats if iono == 1]+[ib(s, f) for s in sats for f in range(nf)]
    for a in act:
        for b in act:
            if b <= a and (a-b) % 3 != 1:
                P[a, b] = P[b, a] = g.real('P%d_%d' % (a, b), 0, 10)
    nav.x = g.array(x)
    nav.P = g.array(list(P.ravel())).reshape(nx, nx)
    q = [g.real('q%d' % k, 0, 1) if k in act else 0.0 for k in range(nav.nq)]
    nav.q = g.array(q)
    obs = resolve('gnss:Obs')()
    seen = [k for k in range(len(sats)) if obs_kind[k] != 'none']
    n = len(seen)
    obs.sat = np.array([sats[k] for k in seen], dtype=int)
    obs.sig = {k: sigs(k, nf) for k in (G.GPS, G.GLO, G.GAL, G.BDS, G.QZS)}
    R = [[g.real('pr%d_%d' % (s, f), 2e7, 3e7) for f in range(nf)] for s in sats]
    L = [[g.real('cp%d_%d' % (s, f), 1e7, 2e8) for f in range(nf)] for s in sats]
    for k in range(len(sats)):
        if obs_kind[k] == 'nopr':
            R[k][nf-1] = 0.0
        if obs_kind[k] == 'nocp':
            L[k][0] = 0.0
    fl = lambda M: g.array([a for r in M for a in r]).reshape(n, nf)
    obs.P, obs.L = fl([R[k] for k in seen]), fl([L[k] for k in seen])
    gt = resolve('gnss:gtime_t')
    dt = g.int('dt', 0, 30)
    nav.t, obs.t = gt(1700000000, 0.0), gt(1700000000+dt, 0.0)
    if few:
        with Patch('pppssr', uGNSS=Few(world)), g.stub('gnss:sat2prn', lambda s: (sysof(s), s)):
            g.call('pppssr:pppos.udstate', o, obs)
    else:
        sysof = lambda s: resolve('gnss:sat2prn')(s)[0]
        g.call('pppssr:pppos.udstate', o, obs)
    # expected
    X = list(x)
    Q = [[P[a, b] for b in range(nx)] for a in range(nx)]
    if pm:
        for k in range(3):
            X[k] = x[k]+x[k+3]*dt
        A = [[Q[a][b]+(dt*Q[a+3][b] if a < 3 else 0) for b in range(nx)] for a in range(nx)]
        Q = [[A[a][b]+(dt*A[a][b+3] if b < 3 else 0) for b in range(nx)] for a in range(nx)]
    for a in range(nav.nq):
        Q[a][a] = Q[a][a]+q[a]*dt

    def put(j, v, var):
        X[j] = v
        for a in range(nx):
            Q[a][j] = Q[j][a] = 0.0
        Q[j][j] = var
    ion_on = [q == 'on' for q in state]
    for f in range(nf):
        reset = {}
        for k, s in enumerate(sats):
            reset[s] = edt[k] or over(k, f)+1 > nav.maxout
            if reset[s] and state[k] == 'on':
                put(ib(s, f), 0.0, 0.0)
            if reset[s] and iono == 1 and ion_on[k]:
                put(ii(s), 0.0, 0.0)
                ion_on[k] = False
        for k, s in enumerate(sats):
            if edt[k] or obs_kind[k] == 'none':
                continue
            ch = -3 if sysof(s) == G.GLO else 0
            fr = [freq(sysof(s), h, ch) for h in range(nf)]
            ion = 0
            if nf > 1 and iono == 1:
                if R[k][0] is 0.0 or obs_kind[k] == 'nopr':
                    continue
                ion = (R[k][0]-R[k][1])/(1-(fr[0]/fr[1])**2)
            has = not (obs_kind[k] == 'nopr' and f == nf-1 or obs_kind[k] == 'nocp' and f == 0)
            if has and (state[k] == 'off' or reset[s]):
                put(ib(s, f), L[k][f]-R[k][f]*fr[f]/CL+2*ion*fr[f]/CL*(fr[0]/fr[f])**2, nav.sig_n0**2)
                g.assume(Or(X[ib(s, f)] > 1e-3, X[ib(s, f)] < -1e-3))
            if nf > 1 and iono == 1:
                g.assume(Or(ion > 1e-3, ion < -1e-3))
                if not ion_on[k]:
                    put(ii(s), ion, nav.sig_ion0**2)
                    ion_on[k] = True
    for k, s in enumerate(sats):
        for f in range(nf):
            if not (edt[k] or over(k, f)+1 > nav.maxout):
                g.ensure('outages are counted', nav.outc[s-1, f] == over(k, f)+1)
            elif state[k] == 'on':
                g.ensure('outages are counted', nav.outc[s-1, f] == 0)
    for a in range(nx):
        g.ensure('state after the propagation', close(nav.x[a], X[a], 1e-7))
        for b in range(nx):
            if few or a in act and b in act:
                g.ensure('covariance after the propagation', close(nav.P[a, b], Q[a][b], 1e-7), (a, b, nav.P[a, b], Q[a][b], nf, pm, trop, iono, state, obs_kind, edt, outc))


@contract('F01', fns=F[1:], n=60, tmo=160)
def time_propagation(g):
    sats = [1, 3]
    nf, pm, (trop, iono), state, kind, edt, outc = cases(
        g, 30, nf=[1, 2], pmode=[0, 1], opt=[(1, 1), (1, 0), (0, 1), (0, 0)],
        state=[('on', 'on'), ('off', 'on'), ('off', 'off')], obs=[(0, 0), ('nopr', 0), (0, 'nocp'), (0, 'none'), ('none', 0)],
        edt=[(0, 0), (1, 0), (0, 1)], outc=[(0, 0), (5, 4), (4, 5), ((5, 0), (0, 5)), ((0, 5), (5, 0))])
    step(g, 3, sats, nf, pm, trop, iono, state, kind, edt, outc)


@contract('F01', fns=F[1:], n=25, prove=False, why='full-size state')
def time_propagation_full_size(g):
    sats = [1, 150, 40, 179, 32, 2, 31, 68, 33, 110, 77, 172, 14, 15, 16, 17, 149, 3]
    kn = lambda nm, v: [g.choice(nm+str(k), v) for k in range(len(sats))]
    step(g, 233, sats[:g.choice('n', [2, 18, 4])], g.choice('nf', [1, 2]), g.choice('pmode', [0, 1]), *g.choice('opt', OPT[:4]),
         kn('st', ['on', 'off']), kn('ob', [0, 0, 'nopr', 'nocp', 'none']), kn('ed', [0, 0, 1]), kn('oc', [0, 4, 5, 7, (0, 6), (6, 0)]))
