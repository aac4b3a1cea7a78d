"""E03 SSR corrections are applied only with the mask and the ephemeris issue they refer to."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff, isnan, same, resolve

CL = 299792458.0
LAB = {'G': 'G05', 'E': 'E12', 'C': 'C33', 'R': 'R09'}
MODES = {'CLAS': 0, 'MADOCA': 1, 'HAS': 2, 'BDS': 4, 'PVS': 7, 'SBAS': 8, 'DFMC': 9}
ORB, CLK, HCLK = 2, 1, 3


def ct(n):
    return resolve('cssrlib:sCType.'+n)


def unit(g, a):
    """contract of vnorm for vectors that are not null (checked below)"""
    if g.symbolic:
        from vc.sym import SReal, zreal
        import z3
        R = z3.RealSort()
        n = z3.Function('norm', R, R, R, R)(*[zreal(x) for x in a])
        return [SReal(zreal(x)/n) for x in a]
    n = np.sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2])
    return [x/n for x in a]


class World:
    """broadcast orbits replaced by their contract: one symbolic state per ephemeris"""

    def __init__(self, g, label, neph):
        self.g, self.label = g, label
        self.sat = sat = resolve('gnss:id2sat')(label)
        self.glo = label[0] == 'R'
        T = resolve('gnss:gtime_t')
        self.nav = nav = resolve('gnss:Nav')()
        g.lift(nav, 0)
        self.eph = []
        self.ta = g.int('ta', -60, 60)
        self.t0 = 1500000000+self.ta
        for k in range(neph):
            e = resolve('gnss:Geph' if self.glo else 'gnss:Eph')()
            e.sat = sat
            e.toe = T(self.t0-g.int('age%d' % k, -1700, 1700), 0.0)
            e.iode, e.mode, e.svh = g.int('iode%d' % k, 0, 255), g.int('mode%d' % k, 0, 1), g.int('svh%d' % k, 0, 63)
            e.tgd = g.real('tgd%d' % k, -1e-7, 1e-7)
            e.frq = 3
            self.eph.append(e)
        (nav.geph if self.glo else nav.eph).extend(self.eph)
        self.state = [([g.real('r%d%d' % (k, j), 1e7, 3e7) for j in range(3)], [g.real('v%d%d' % (k, j), -4e3, 4e3) for j in range(3)],
                       g.real('dt%d' % k, -1e-3, 1e-3), g.real('dc%d' % k, -1e-3, 1e-3), g.real('rel%d' % k, -1e-7, 1e-7)) for k in range(neph)]
        self.asked = []
        nav.x = g.array([-3.9e6, 3.3e6, 3.7e6])
        nav.time_p = T(0, 0.0)

    def idx(self, e):
        return [k for k, x in enumerate(self.eph) if x is e][0]

    def pos(self, t, e, flg_v=False, *a):
        k = self.idx(e)
        self.asked.append((k, t))
        r, v, d, _, _ = self.state[k]
        return (self.g.array(r), self.g.array(v), d) if flg_v else (self.g.array(r), d)

    def clk(self, t, e):
        return self.state[self.idx(e)][3]

    def rel(self, t, e):
        return self.state[self.idx(e)][4]

    def run(self, fn, *a):
        g = self.g
        if g.symbolic:
            with g.stub('gnss:vnorm', lambda r: g.array(unit(g, r))):
                return self.run2(fn, *a)
        return self.run2(fn, *a)

    def run2(self, fn, *a):
        g = self.g
        with g.stub('ephemeris:eph2pos', self.pos), g.stub('ephemeris:geph2pos', self.pos), g.stub('ephemeris:eph2clk', self.clk), \
                g.stub('ephemeris:geph2clk', self.clk), g.stub('ephemeris:eph2rel', self.rel), g.stub('ephemeris:geph2rel', lambda r, v: self.grel):
            return g.call(fn, *a)


def correction(g, w, mode):
    """SSR decoder in an arbitrary state about the satellite"""
    sat = w.sat
    cs = resolve('cssrlib:cssr')()
    cs.cssrmode = resolve('cssrlib:sCSSRTYPE')(MODES[mode])
    cs.nav_mode = dict(cs.nav_mode)
    cs.iodssr, cs.iodssr_p = g.int('iod', -1, 15), g.int('iodp', -1, 15)
    cs.iodssr_c = {ct('ORBIT'): g.int('iodorb', -1, 15), ct('CLOCK'): g.int('iodclk', -1, 15)}
    cs.sat_n = [sat] if g.choice('in', [True, False]) else [sat+1]
    cs.sat_n_p = [sat] if g.choice('inp', [True, False]) else []
    cs.mask_id, cs.mask_id_clk = g.int('mask', 0, 31), g.int('maskc', 0, 31)
    L = cs.lc[0]
    L.iode, L.dorb, L.dclk, L.dvel, L.ddft, L.hclk = {}, {}, {}, {}, {}, {}
    L.iodc, L.iodc_c, L.iodc_c_p, L.dclk_p = {}, {}, {}, {}
    T = resolve('gnss:gtime_t')
    L.t0 = {sat: {ct('ORBIT'): T(1500000000, 0.0), ct('CLOCK'): T(1500000000, 0.0)}}
    w.have = g.choice('have', ['all', 'no orbit', 'no clock'])
    w.d = [g.nreal('dr', -9, 9), g.real('da', -9, 9), g.real('dc', -9, 9)]
    w.c, w.cp, w.h = g.nreal('clk', -9, 9), g.real('clkp', -9, 9), g.nreal('hclk', -9, 9)
    w.dv, w.df = [g.real('dv%d' % k, -.01, .01) for k in range(3)], g.real('ddft', -.01, .01)
    L.cstat = (1 << ct('HCLOCK')) if g.choice('hc', [False, True]) else 0
    w.iod = g.int('iode', 0, 255)
    if w.have != 'no orbit':
        L.iode[sat], L.dorb[sat] = w.iod, g.array(w.d)
        L.dvel[sat] = g.array(w.dv)
    if w.have != 'no clock':
        L.dclk[sat], L.dclk_p[sat], L.ddft[sat] = w.c, w.cp, w.df
        L.hclk[sat] = w.h
    L.iodc[sat], L.iodc_c[sat], L.iodc_c_p[sat] = g.int('iodc', 0, 7), g.int('iodcc', 0, 7), g.int('iodcp', 0, 7)
    w.stored = L.dorb.get(sat)
    return cs


def expected(g, w, cs, mode, t):
    """use condition and total corrections, from the service definitions"""
    sat, L = w.sat, cs.lc[0]
    cur, old = sat in cs.sat_n, sat in cs.sat_n_p
    iorb, iclk = cs.iodssr_c[ct('ORBIT')], cs.iodssr_c[ct('CLOCK')]
    first = And(cs.iodssr >= 0, iorb == cs.iodssr)
    ok = [Ite(first, cur, And(cs.iodssr_p >= 0, iorb == cs.iodssr_p, old)), w.have != 'no orbit', w.have != 'no clock']
    dt = (t.time-(w.t0-w.ta))+t.sec
    rate = mode in ('PVS', 'SBAS', 'DFMC')
    c = w.c
    if mode == 'BDS':
        a, b = L.iodc[sat] == L.iodc_c[sat], L.iodc[sat] == L.iodc_c_p[sat]
        ok.append(Or(a, b))
        c = Ite(a, w.c, w.cp)
    else:
        if mode == 'HAS':
            ok.append(Or(cs.mask_id == cs.mask_id_clk, old))
        else:
            ok.append(Ite(iclk == cs.iodssr, cur, And(iclk == cs.iodssr_p, old)))
        if L.cstat:
            c = Ite(isnan(w.h), c, c+Ite(isnan(w.h), 0.0, w.h))
        if rate:
            c = c+w.df*dt
    ok.append(Not(isnan(c)))
    ok.append(Not(isnan(w.d[0])))
    d = [w.d[k]+(w.dv[k]*dt if rate else 0) for k in range(3)]
    return And(ok), d, c


def suits(w, cs, e, t):
    m = cs.nav_mode[resolve('gnss:sat2prn')(w.sat)[0]]
    age = (t.time-e.toe.time)+t.sec
    return And(e.iode == w.iod, e.mode == m, absv(age) <= (1800 if w.glo else 7201))


def same_state(g, w, k, rs, vs, dts, d, c, mode, label, extra):
    """rs, vs, dts are the broadcast state of ephemeris k corrected by d, c"""
    r, v, dt, _, _ = w.state[k]
    cross = lambda a, b: [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
    if mode in ('PVS', 'SBAS', 'DFMC'):
        off = d
    else:
        ec = unit(g, cross(r, v))
        if mode == 'BDS':
            er = unit(g, r)
            ea = cross(ec, er)
        else:
            ea = unit(g, v)
            er = cross(ea, ec)
        off = [er[j]*d[0]+ea[j]*d[1]+ec[j]*d[2] for j in range(3)]
    tg = w.eph[k].tgd if mode in ('PVS', 'SBAS', 'DFMC') and label[0] == 'G' else 0
    tol = 1e-9 if g.symbolic else 1e-6
    return And([close(rs[j], r[j]-off[j], tol, rel=False) for j in range(3)]), And([vs[j] == v[j] for j in range(3)]), \
        close(dts, dt+c/CL-tg-extra, 1e-15 if g.symbolic else 1e-14, rel=False)


def unit_frame(g, w):
    for r, v, *_ in w.state:
        cr = [r[1]*v[2]-r[2]*v[1], r[2]*v[0]-r[0]*v[2], r[0]*v[1]-r[1]*v[0]]
        g.assume(And(cr[0]*cr[0]+cr[1]*cr[1]+cr[2]*cr[2] > 1e12, v[0]*v[0]+v[1]*v[1]+v[2]*v[2] > 1e4))


def single(mode, labels):
    def f(g):
        label = LAB[g.choice('sys', labels)]
        w = World(g, label, 1)
        w.grel = w.state[0][4]
        cs = correction(g, w, mode)
        if not g.symbolic:
            unit_frame(g, w)
        T = resolve('gnss:gtime_t')
        t = T(w.t0, g.real('ts', 0, 1, open_hi=True))
        ok, d, c = expected(g, w, cs, mode, t)
        rs, vs, dts, svh = w.run('ephemeris:satpos', w.sat, t, w.nav, cs)
        use = And(ok, suits(w, cs, w.eph[0], t))
        g.ensure('not available without matching corrections and ephemeris', Implies(Not(use), And(isnan(rs[0, 0]), isnan(dts[0]))))
        g.ensure('no ephemeris of that issue is flagged', Implies(And(ok, Not(use)), svh[0] == 1))
        if not w.asked:
            g.ensure('refused only for a reason', Not(use))
            return
        g.ensure('used only with matching corrections and ephemeris', use)
        a, b, z = same_state(g, w, 0, rs[0], vs[0], dts[0], d, c, mode, label, w.state[0][4])
        g.ensure('position corrected along the orbit axes', a)
        g.ensure('velocity of the broadcast orbit', b)
        g.ensure('clock corrected', z)
        g.ensure('health of the ephemeris', svh[0] == w.eph[0].svh)
        g.ensure('stored correction unchanged', And([cs.lc[0].dorb[w.sat][j] == w.d[j] for j in range(3)], same(cs.lc[0].dclk[w.sat], w.c)))
    return f


for mode, labels in (('CLAS', ['G', 'C']), ('MADOCA', ['R']), ('HAS', ['E']), ('BDS', ['C']), ('PVS', ['G', 'E']), ('SBAS', ['G']), ('DFMC', ['E'])):
    contract('E03', name='one_satellite_'+mode.lower(), fns=['ephemeris:satpos', 'ephemeris:findeph'], n=300, tmo=120)(single(mode, labels))


def observed(mode, labels):
    def f(g):
        label = LAB[g.choice('sys', labels)]
        w = World(g, label, 1)
        w.grel = w.state[0][4]
        cs = correction(g, w, mode)
        if not g.symbolic:
            unit_frame(g, w)
        T, U = resolve('gnss:gtime_t'), resolve('gnss:uGNSS')
        obs = resolve('gnss:Obs')()
        obs.t = T(w.t0, 0.5)
        other = resolve('gnss:id2sat')('J03')
        obs.sat = np.array([other, w.sat])
        sy = resolve('gnss:sat2prn')(w.sat)[0]
        obs.sig = {sy: {}}
        P = g.real('P', 2e7, 4e7)
        obs.P = g.array([0.0, 0.0]).reshape(2, 1) if not g.symbolic else g.array([[0.0], [0.0]])
        obs.P[1, 0] = P
        tx = T(w.t0, 0.5-P/CL)
        ok, d, c = expected(g, w, cs, mode, obs.t)
        rs, vs, dts, svh, n = w.run('ephemeris:satposs', obs, w.nav, cs)
        use = And(ok, suits(w, cs, w.eph[0], tx))
        g.ensure('constellation without selected signals is skipped', And(rs[0, 0] == 0, dts[0] == 0, svh[0] == 0))
        if not w.asked:
            g.ensure('refused only for a reason', Not(use))
            g.ensure('no position', And(rs[1, 0] == 0, rs[1, 1] == 0, dts[1] == 0, n == 0))
            return
        g.ensure('used only with matching corrections and ephemeris', use)
        k, t = w.asked[0]
        g.ensure('at the transmission time', close((t.time-w.t0)+t.sec, 0.5-P/CL-w.state[0][3], 1e-9, rel=False))
        a, b, z = same_state(g, w, 0, rs[1], vs[1], dts[1], d, c, mode, label, 0)
        g.ensure('position corrected along the orbit axes', a)
        g.ensure('velocity of the broadcast orbit', b)
        g.ensure('clock corrected', z)
        g.ensure('health of the ephemeris', And(svh[1] == w.eph[0].svh, n == 1))
        g.ensure('stored correction unchanged', And([cs.lc[0].dorb[w.sat][j] == w.d[j] for j in range(3)], same(cs.lc[0].dclk[w.sat], w.c)))
    return f


for mode, labels in (('CLAS', ['G', 'C']), ('MADOCA', ['R']), ('HAS', ['E']), ('BDS', ['C']), ('PVS', ['G', 'E']), ('SBAS', ['G'])):
    contract('E03', name='observed_satellites_'+mode.lower(), fns=['ephemeris:satposs', 'ephemeris:findeph'], n=300, tmo=120)(observed(mode, labels))


@contract('E03', fns=['ephemeris:satposs'], n=300, tmo=120)
def without_corrections(g):
    label = LAB[g.choice('sys', ['G', 'E', 'R'])]
    w = World(g, label, 2)
    T = resolve('gnss:gtime_t')
    obs = resolve('gnss:Obs')()
    obs.t = T(w.t0, 0.0)
    obs.sat = np.array([w.sat])
    obs.sig = {resolve('gnss:sat2prn')(w.sat)[0]: {}}
    P = g.real('P', 2e7, 4e7)
    obs.P = g.array([[0.0]])
    obs.P[0, 0] = P
    w.nav.smode, w.nav.nf = 1, g.choice('nf', [1, 2])
    rs, vs, dts, svh, n = w.run('ephemeris:satposs', obs, w.nav)
    age = [absv((w.t0-e.toe.time)-P/CL) for e in w.eph]
    good = [And(e.mode == 0, a <= (1800 if w.glo else 7201)) for e, a in zip(w.eph, age)]
    if not w.asked:
        g.ensure('refused only without a valid ephemeris', And(Not(Or(good)), n == 0, svh[0] == 1, rs[0, 0] == 0))
        return
    k, t = w.asked[0]
    g.ensure('valid and nearest ephemeris', And(good[k], Implies(good[1-k], age[k] <= age[1-k])))
    g.ensure('at the transmission time', close((t.time-w.t0)+t.sec, -P/CL-w.state[k][3], 1e-9, rel=False))
    tg = w.eph[k].tgd if w.nav.nf == 1 and not w.glo else 0
    g.ensure('broadcast state, group delay for single frequency', And([rs[0, j] == w.state[k][0][j] for j in range(3)], close(dts[0], w.state[k][2]-tg, 1e-15, rel=False), n == 1, svh[0] == w.eph[k].svh))


@contract('E03', fns=['gnss:vnorm'], n=300)
def unit_vector(g):
    r = [g.real('r%d' % k, -1e7, 1e7) for k in range(3)]
    n2 = r[0]*r[0]+r[1]*r[1]+r[2]*r[2]
    g.assume(n2 > 1)
    u = g.call('gnss:vnorm', g.array(r))
    n = g.call(np.sqrt, n2)
    g.ensure('same direction, length one', And([close(u[k]*n, r[k]) for k in range(3)]))
