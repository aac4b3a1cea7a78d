"""E02 broadcast orbits and clocks follow the interface-specification user algorithms."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff, resolve

CL = 299792458.0
MU = {'G': 3.986005e14, 'E': 3.986004418e14, 'C': 3.986004418e14, 'J': 3.986005e14, 'I': 3.986005e14}
OM = {'G': 7.2921151467e-5, 'E': 7.2921151467e-5, 'C': 7.292115e-5, 'J': 7.2921151467e-5, 'I': 7.2921151467e-5}
PAR = dict(e=(0, 0.1), M0=(-3.2, 3.2), deln=(-1e-8, 1e-8), i0=(0, 2), idot=(-1e-9, 1e-9), OMG0=(-3.2, 3.2), OMGd=(-2e-8, 2e-8), omg=(-3.2, 3.2),
           crs=(-1e3, 1e3), crc=(-1e3, 1e3), cus=(-1e-4, 1e-4), cuc=(-1e-4, 1e-4), cis=(-1e-4, 1e-4), cic=(-1e-4, 1e-4),
           af0=(-1e-3, 1e-3), af1=(-1e-9, 1e-9), af2=(-1e-15, 1e-15), toes=(0, 604800))


def at(g, a, b, tol):
    """equal: as polynomials for the prover, up to rounding at run time"""
    return close(a, b, 1e-12 if g.symbolic else tol, rel=False)


def fn(g):
    return [lambda x, f=f: g.call(f, x) for f in (np.sin, np.cos, np.sqrt)]+[lambda y, x: g.call(np.arctan2, y, x)]


def make(g, label, mode):
    sat = resolve('gnss:id2sat')(label)
    e = resolve('gnss:Eph')(sat)
    for k, (a, b) in PAR.items():
        setattr(e, k, g.real(k, a, b))
    e.A = g.real('A', 6e6, 5e7)
    e.mode = g.int('mode', 1, 9) if mode else 0
    e.Adot = g.real('Adot', -8, 8) if mode else 0.0
    e.delnd = g.real('delnd', -1e-12, 1e-12) if mode else 0.0
    T = resolve('gnss:gtime_t')
    n = g.int('t', 10**9, 2*10**9)
    k, kc, f = g.int('dt', -20000, 20000), g.int('dtc', -20000, 20000), g.real('ts', 0, 1, open_hi=True)
    e.toe, e.toc, t = T(n-k, 0.0), T(n-kc, 0.0), T(n, f)
    return e, t, k+f, kc+f


LAST = {}


def kepler(I, args, kw):
    """contract of eccentricAnomaly: E solves Kepler's equation (checked below), sE is its sine"""
    M, e = args
    from vc.api import C
    import z3
    from vc.sym import SReal, s_sin
    E = SReal(z3.Real('E!%d' % len(C.inputs)))
    LAST['E'], LAST['M'] = E, M
    return E, s_sin(E)


def anomaly(g, M, e):
    if g.symbolic:
        return LAST['E']
    E = M
    for _ in range(60):
        E = E-(E-e*math.sin(E)-M)/(1-e*math.cos(E))
    return E


LABELS = ['G07', 'E11', 'C30', 'J02', 'I03', 'C03', 'C60']


def spec(g, label, mode, e, dt, dtc):
    """IS-GPS-200 table 20-IV / 30-II, Galileo OS SIS ICD table 67, BDS-SIS-ICD table 5-11: position, velocity, clock"""
    S, K, Q, AT = fn(g)
    mu, om = MU[label[0]], OM[label[0]]
    n = Q(mu/(e.A*e.A*e.A))+e.deln
    nd = n
    if mode:
        nd = n+dt*e.delnd
        n = n+0.5*dt*e.delnd
    A = e.A+dt*e.Adot if mode else e.A
    M = e.M0+n*dt
    E = anomaly(g, M, e.e)
    sE, cE = S(E), K(E)
    w = 1-e.e*cE
    root = Q(1-e.e*e.e)
    nu = AT(root*sE, cE-e.e)
    phi = nu+e.omg
    s2, c2 = S(2*phi), K(2*phi)
    u = phi+e.cuc*c2+e.cus*s2
    r = A*w+e.crc*c2+e.crs*s2
    i = e.i0+e.idot*dt+e.cic*c2+e.cis*s2
    geo = label in ('C03', 'C60')
    L = e.OMG0+e.OMGd*dt-om*e.toes-(0 if geo else om*dt)
    su, cu, si, ci, sL, cL = S(u), K(u), S(i), K(i), S(L), K(L)
    x, y = r*cu, r*su
    p = [x*cL-y*ci*sL, x*sL+y*ci*cL, y*si]
    Ed = nd/w
    nud = root/w*Ed
    ud = nud+2*nud*(e.cus*c2-e.cuc*s2)
    rd = A*e.e*sE*Ed+2*nud*(e.crs*c2-e.crc*s2)+(e.Adot*w if mode else 0)
    di = e.idot+2*nud*(e.cis*c2-e.cic*s2)
    Ld = e.OMGd-(0 if geo else om)
    xd, yd = rd*cu-r*ud*su, rd*su+r*ud*cu
    v = [xd*cL-yd*ci*sL-x*sL*Ld-y*(ci*cL*Ld-si*sL*di), xd*sL+yd*ci*cL+x*cL*Ld-y*(ci*sL*Ld+si*cL*di), yd*si+y*ci*di]
    if geo:
        s5, c5 = -math.sin(math.radians(5)), math.cos(math.radians(5))
        so, co = S(om*dt), K(om*dt)
        tilt = lambda a: [a[0], a[1]*c5+a[2]*s5, -a[1]*s5+a[2]*c5]
        rz = lambda a: [a[0]*co+a[1]*so, -a[0]*so+a[1]*co, a[2]]
        a, b = tilt(p), tilt(v)
        p = rz(a)
        v = rz(b)
        v = [v[0]+om*p[1], v[1]-om*p[0], v[2]]
    rel = -2*Q(mu*e.A)*e.e*sE/(CL*CL)
    clk = e.af0+e.af1*dtc+e.af2*dtc*dtc
    return p, v, clk, rel, (M, e.e)


FNS = ['ephemeris:eph2pos', 'ephemeris:dtadjust', 'ephemeris:sys2MuOmega', 'ephemeris:eccentricAnomaly']


def kepler_argument(g, M):
    if g.symbolic:
        g.ensure('mean anomaly', close(LAST['M'], M, 1e-12))


def position(labels, mode):
    def f(g):
        label = g.choice('sat', labels)
        e, t, dt, dtc = make(g, label, mode)
        rs, dts = g.call('ephemeris:eph2pos', t, e)
        p, v, clk, rel, (M, _) = spec(g, label, mode, e, dt, dtc)
        kepler_argument(g, M)
        for k in range(3):
            g.ensure('position %s' % 'xyz'[k], at(g, rs[k], p[k], 0.05))
        g.ensure('clock polynomial at the clock epoch plus relativistic correction', at(g, dts, clk+rel, 1e-14))
    return f


def velocity(labels, mode):
    def f(g):
        label = g.choice('sat', labels)
        e, t, dt, dtc = make(g, label, mode)
        rs, vs, dts = g.call('ephemeris:eph2pos', t, e, True)
        p, v, clk, rel, (M, _) = spec(g, label, mode, e, dt, dtc)
        for k in range(3):
            g.ensure('position %s' % 'xyz'[k], at(g, rs[k], p[k], 0.05))
        for k in range(3):
            g.ensure('velocity %s' % 'xyz'[k], at(g, vs[k], v[k], 1e-3))
        g.ensure('clock', at(g, dts, clk+rel, 1e-14))
    return f


for nm, labels in (('gps', ['G07']), ('galileo', ['E11']), ('beidou', ['C30']), ('qzss', ['J02']), ('navic', ['I03']), ('beidou_geo', ['C03', 'C60', 'C05', 'C59'][:2])):
    for mode in (0, 1):
        if mode and nm in ('galileo', 'navic'):
            continue
        contract('E02', name='%s_mode%d_position' % (nm, mode), fns=FNS, n=150, tmo=100, summaries={'ephemeris:eccentricAnomaly': kepler})(position(labels, mode))
        contract('E02', name='%s_mode%d_velocity' % (nm, mode), fns=FNS, n=150, tmo=100, summaries={'ephemeris:eccentricAnomaly': kepler})(velocity(labels, mode))


@contract('E02', fns=FNS, n=600, prove=False, why='derivative of transcendental functions: compared by central differences')
def velocity_is_the_rate_of_the_position(g):
    label = g.choice('sat', LABELS+['C59', 'C05', 'C06', 'C58'])
    e, t, dt, dtc = make(g, label, g.choice('mode', [0, 1]))
    e.A = g.real('A2', 2.4e7, 4.3e7)
    f = lambda d: g.call('ephemeris:eph2pos', resolve('gnss:timeadd')(t, d), e)[0]
    rs, vs, dts = g.call('ephemeris:eph2pos', t, e, True)
    g.ensure('central difference', np.abs((f(.5)-f(-.5))-vs).max() < 1e-3)
    g.ensure('same position with and without velocity', np.abs(f(0)-rs).max() == 0)


@contract('E02', fns=['ephemeris:eccentricAnomaly'], n=4000, prove=False, why='convergence of a fixed-point iteration over sin is outside the arithmetic theories')
def kepler_equation(g):
    e = g.real('e', 0, 0.1)
    M = g.real('M', -50, 50)
    E, s = g.call('ephemeris:eccentricAnomaly', M, e)
    g.ensure('solves Kepler\'s equation', abs(E-e*math.sin(E)-M) < 1e-9)
    g.ensure('sine of the result', abs(s-math.sin(E)) < 1e-9)


@contract('E02', fns=['ephemeris:eph2clk'], n=500, tmo=100)
def clock_of_transmission(g):
    e = resolve('gnss:Eph')(1)
    e.af0, e.af1, e.af2 = g.real('af0', -1e-3, 1e-3), g.real('af1', -1e-9, 1e-9), g.real('af2', -1e-15, 1e-15)
    T = resolve('gnss:gtime_t')
    n, k, f = g.int('t', 10**9, 2*10**9), g.int('dt', -20000, 20000), g.real('ts', 0, 1, open_hi=True)
    e.toc, t, d = T(n-k, 0.0), T(n, f), k+f
    r = g.call('ephemeris:eph2clk', t, e)
    g.ensure('polynomial at the clock-corrected time', close(r, e.af0+e.af1*d+e.af2*d*d, 5e-12, rel=False))


@contract('E02', fns=['ephemeris:eph2rel', 'ephemeris:sys2MuOmega'], n=300, tmo=60, summaries={'ephemeris:eccentricAnomaly': kepler})
def relativistic_correction(g):
    label = g.choice('sat', ['G07', 'E11', 'C30'])
    mode = g.choice('mode', [0, 1])
    e, t, dt, dtc = make(g, label, mode)
    r = g.call('ephemeris:eph2rel', t, e)
    p, v, clk, rel, (M, _) = spec(g, label, mode, e, dt, dtc)
    kepler_argument(g, M)
    g.ensure('relativistic part of the clock', at(g, r, rel, 1e-15))


@contract('E02', fns=['ephemeris:deq'], n=500, tmo=60)
def glonass_equations_of_motion(g):
    x = [g.real('x%d' % k, -3e7, 3e7) for k in range(3)]+[g.real('v%d' % k, -5e3, 5e3) for k in range(3)]
    a = [g.real('a%d' % k, -1e-4, 1e-4) for k in range(3)]
    r2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2]
    g.assume(r2 > 1e13)
    S, K, Q, AT = fn(g)
    r = Q(r2)
    mu, j2, ae, w = 3.9860044e14, 1.0826257e-3, 6378136.0, 7.292115e-5
    d = g.call('ephemeris:deq', g.array(x), g.array(a))
    h = 1.5*j2*mu*ae*ae/(r2*r2*r)
    z = 5*x[2]*x[2]/r2
    want = [x[3], x[4], x[5], -mu/(r2*r)*x[0]-h*x[0]*(1-z)+w*w*x[0]+2*w*x[4]+a[0],
            -mu/(r2*r)*x[1]-h*x[1]*(1-z)+w*w*x[1]-2*w*x[3]+a[1], -mu/(r2*r)*x[2]-h*x[2]*(3-z)+a[2]]
    for k in range(6):
        g.ensure('state rate %d' % k, close(d[k], want[k], 1e-9))


@contract('E02', fns=['ephemeris:glorbit'], n=400, tmo=60)
def glonass_integration_step(g):
    """fourth order Runge-Kutta: exact for the position under constant acceleration, consistent stages otherwise"""
    x0 = [g.real('x%d' % k, -10, 10) for k in range(6)]
    h = g.real('h', -1, 1)
    acc = [g.real('a%d' % k, -1, 1) for k in range(3)]
    x = g.array(list(x0))
    if not g.symbolic:
        import unittest.mock as um
        with um.patch('cssrlib.ephemeris.deq', lambda x, a: np.concatenate([x[3:6], a])):
            y = g.call('ephemeris:glorbit', h, x, g.array(acc))
    else:
        y = g.call('ephemeris:glorbit', h, x, g.array(acc))
    for k in range(3):
        g.ensure('position after the step', close(y[k], x0[k]+h*x0[3+k]+h*h*acc[k]/2, 1e-9))
        g.ensure('velocity after the step', close(y[3+k], x0[3+k]+h*acc[k], 1e-9))


def uniform(I, args, kw):
    x, acc = args
    return I_array([x[3], x[4], x[5], acc[0], acc[1], acc[2]])


def I_array(v):
    from vc.interp import mkarr
    return mkarr(v, 'f')


from vc.api import CONTRACTS_BY_PROP      # noqa
[c for c in CONTRACTS_BY_PROP['E02'] if c.name == 'glonass_integration_step'][0].summaries = {'ephemeris:deq': uniform}


def drift(I, args, kw):
    t, x, acc = args
    return I_array([x[0]+t*x[3], x[1]+t*x[4], x[2]+t*x[5], x[3], x[4], x[5]])


def glonass_clock_and_steps(g):
    G = resolve('gnss:Geph')()
    T = resolve('gnss:gtime_t')
    n, k, f = g.int('t', 10**9, 2*10**9), g.int('dt', -3, 2), g.real('ts', 0, 1, open_hi=True)
    G.toe, t, d = T(n-k, 0.0), T(n, f), k+f
    x = [g.real('x%d' % k, -10, 10) for k in range(6)]
    G.pos, G.vel, G.acc = g.array(x[:3]), g.array(x[3:]), g.array([0.0, 0.0, 0.0])
    G.taun, G.gamn = g.real('taun', -1e-3, 1e-3), g.real('gamn', -1e-9, 1e-9)
    if g.symbolic:
        rs, vs, dts = g.call('ephemeris:geph2pos', t, G, True)
    else:
        import unittest.mock as um
        with um.patch('cssrlib.ephemeris.glorbit', lambda t, x, a: np.concatenate([x[:3]+t*x[3:], x[3:]])):
            rs, vs, dts = g.call('ephemeris:geph2pos', t, G, True)
    g.ensure('the steps add up to the time since the reference epoch', And([And(close(rs[k], x[k]+d*x[3+k], 1e-6), close(vs[k], x[3+k])) for k in range(3)]))
    g.ensure('clock', close(dts, -G.taun+G.gamn*d, 1e-15, rel=False))
    g.ensure('stored ephemeris unchanged', And([And(G.pos[k] == x[k], G.vel[k] == x[3+k]) for k in range(3)]))


contract('E02', fns=['ephemeris:geph2pos'], n=300, tmo=60, summaries={'ephemeris:glorbit': drift})(glonass_clock_and_steps)


@contract('E02', fns=['ephemeris:geph2pos', 'ephemeris:glorbit', 'ephemeris:deq'], n=60, prove=False, why='numerical integration: compared with a finer step and by differences')
def glonass_position(g):
    G = resolve('gnss:Geph')()
    T = resolve('gnss:gtime_t')
    G.toe = T(10**9, 0.0)
    th, ph = g.real('th', -3, 3), g.real('ph', -1.1, 1.1)
    R = 2.55e7
    G.pos = np.array([math.cos(th)*math.cos(ph), math.sin(th)*math.cos(ph), math.sin(ph)])*R
    c = np.cross(G.pos/R, [g.real('u%d' % k, -1, 1) for k in range(3)])
    g.assume(np.linalg.norm(c) > 1e-2)
    G.vel = c/np.linalg.norm(c)*3950
    G.acc = np.array([g.real('a%d' % k, -1e-5, 1e-5) for k in range(3)])
    G.taun = G.gamn = 0.0
    dt = g.real('dt', -900, 900)
    at = lambda d: resolve('gnss:timeadd')(G.toe, d)
    rs, vs, dts = g.call('ephemeris:geph2pos', at(dt), G, True)
    r2, _ = g.call('ephemeris:geph2pos', at(dt), G, False, 20.0)
    g.ensure('independent of the step', np.abs(rs-r2).max() < 1e-3)
    a, b = g.call('ephemeris:geph2pos', at(dt+.5), G)[0], g.call('ephemeris:geph2pos', at(dt-.5), G)[0]
    g.ensure('velocity is the rate of the position', np.abs(a-b-vs).max() < 1e-3)
