"""V03 SBAS ionospheric grid: mask, delays, and the delay at a pierce point."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases
from .V01_sbas import dec, message, send

M = 'sbas:sbasDec.'


def grid(band):
    """grid points of a band in the order of its mask (DO-229 table A-14)"""
    if band <= 8:
        mid = [-55+5*k for k in range(23)]
        wide = [-75, -65]+mid+[65, 75]
        pole = {0: (0, 85), 1: (0, -85), 2: (2, 85), 3: (2, -85), 4: (4, 85), 5: (4, -85), 6: (6, 85), 7: (6, -85)}.get(band, (99, 0))
        out = []
        for k in range(8):
            col = mid if k % 2 else sorted(wide+[pole[1]] if k == pole[0] else wide)
            out += [(la, -180+40*band+5*k) for la in col]
        return out
    s = 1 if band == 9 else -1
    out = [(60*s, -180+5*k) for k in range(72)]
    for la in (65, 70, 75):
        out += [(la*s, -180+10*k) for k in range(36)]
    return out+[(85*s, (-180 if s > 0 else -170)+30*k) for k in range(12)]


@contract('V03', fns=[M+'init_sbas_gp'], n=60)
def grid_points(g):
    d = dec(g)
    g.call(M+'init_sbas_gp', d)
    b = g.choice('band', range(11))
    want = grid(b)
    t = d.igp_t[b]
    g.ensure('number of points', len(t) >= len(want))
    g.ensure('places of the points', And([And(t[k][0] == want[k][0], t[k][1] == want[k][1]) for k in range(len(want))]))


@contract('V03', fns=[M+'decode_sbas_igpmask'], n=400, tmo=100)
def grid_mask(g):
    band, w, had = cases(g, 10, band=[0, 4, 8, 10], w=[0, 97, 196], had=[0, 1, 2])
    d = dec(g)
    msg = message(g, 18)
    g.setfield(msg, 18, 4, band)
    for k in range(201):
        if not w <= k < w+5:
            g.setfield(msg, 24+k, 1, 0)
    if had:
        # a mask of the band received before: this one (1) or another (2)
        old = [k for k in range(w, w+5) if bool(g.field(msg, 24+k, 1) == 1)] if had == 1 else [3, 4, 50]
        d.igp_idx = {band: list(old)}
        d.vtec = {band: g.array([2.5]*len(old))}
        d.givei = {band: np.array([3]*len(old), dtype=int)}
    send(g, d, msg)
    idx = [k for k in range(w, w+5) if bool(g.field(msg, 24+k, 1) == 1)]
    g.ensure('points of the mask', And(list(d.igp_idx) == [band], d.igp_idx[band] == idx, d.iodi == g.field(msg, 22, 2)))
    g.ensure('one delay of each point', And(len(d.vtec[band]) == len(idx), len(d.givei[band]) == len(idx)))
    keep = had == 1
    for k in range(len(idx)):
        g.ensure('delays of another mask are dropped', And(d.vtec[band][k] == 2.5, d.givei[band][k] == 3) if keep else d.givei[band][k] == 0)


@contract('V03', fns=[M+'decode_sbas_iono'], n=400, tmo=60)
def delays(g):
    band, n, blk, same, known = cases(g, 16, band=[0, 4, 10], np_=[0, 7, 30, 33], blk=[0, 1, 2, 5], same=[1, 1, 0], known=[1, 1, 0])
    d = dec(g)
    msg = message(g, 26)
    g.setfield(msg, 14, 4, band)
    g.setfield(msg, 18, 4, blk)
    d.iodi = g.int('iodi0', 0, 3)
    f = g.field(msg, 14+203, 2)
    g.assume((f == d.iodi) if same else (f != d.iodi))
    b0 = band if known else 6
    d.igp_idx, d.vtec, d.givei = {b0: list(range(n))}, {b0: g.array([0.0]*n)}, {b0: g.array([0]*n, 'i')}
    send(g, d, msg)
    use = same and known
    V, G = d.vtec[b0], d.givei[b0]
    for j in range(n):
        k = j-15*blk
        if use and 0 <= k < 15:
            raw = g.field(msg, 22+13*k, 9)
            g.ensure('delay', Or(And(raw == 511, isnan(V[j])), And(raw != 511, Not(isnan(V[j])), close(V[j], 0.125*raw, 1e-9))))
            g.ensure('indicator', G[j] == g.field(msg, 22+13*k+9, 4))
        else:
            g.ensure('other points are unchanged', And(V[j] == 0, G[j] == 0))
    g.ensure('no other band appears', And(len(d.vtec) == 1, len(d.givei) == 1))
    if use:
        g.ensure('time', And(same_time(d.lc[band+1].t0[0][CT('VTEC')], d.time), d.lc[band+1].cstat & (1 << CT('VTEC')) != 0))


@contract('V03', fns=['sbas:searchIGP'], n=600, tmo=120)
def neighbours(g):
    """the cell of the pierce point, and the monitored points at its corners"""
    d = dec(g)
    (bands, (la0, lo0)), mon = cases(g, 24, where=[((3, 4), (0, -25)), ((3, 4), (-35, -20)), ((3, 4), (50, -30)), ((3, 4), (20, -60)), ((4, 5, 9), (50, 10)), ((4, 5, 9), (65, 10)),
                                           ((4, 5, 9), (65, 0)), ((4, 5, 9), (-15, 15)), ((0, 8), (5, 175)), ((0, 8), (-10, -180)), ((0, 8), (30, 140)),
                                           # one point each 90 degrees at 85
                                           ((0, 2), (75, -180)), ((0, 6), (75, 170)), ((0, 2), (75, -100)), ((4, 6), (75, 40)),
                                           ((0, 1, 7), (-85, -180)), ((0, 1, 7), (-85, -150)), ((1, 3), (-85, -140)), ((3, 5), (-85, 30)), ((5, 7), (-85, 40)),
                                           ((5, 7), (-85, 120)), ((1, 7), (-85, 170))], mon=[0, 1])
    for b in bands:
        # the mask: points around the cell
        m = [k for k, p in enumerate(grid(b)) if abs(p[0]-la0) <= 20 and (abs(p[0]) == 85 or min(abs(p[1]-lo0), 360-abs(p[1]-lo0)) <= 20)]
        n = len(m)
        d.igp_idx[b] = m
        # delays tell the points apart; some are not monitored
        d.vtec[b] = np.array([1000.0*b+k for k in range(n)])
        d.givei[b] = np.array([(1, 14, 7, 0, 15, 2)[(k+b) % 6] if mon else 5 for k in range(n)], dtype=int)
    wid = 10 if la0 >= 55 or la0 < -55 else 5
    fx, fy = g.real('fx', 1e-6, 1-1e-6), g.real('fy', 1e-6, 1-1e-6)
    D = math.pi/180
    pp = [(la0+wid*fy)*D, (lo0+wid*fx)*D]
    igp, x, y = g.call('sbas:searchIGP', d.time, pp, d)
    g.ensure('place in the cell', And(close(x, fx, 1e-6, False), close(y, fy, 1e-6, False)))
    for i, (dy, dx) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
        lon, la = lo0+wid*dx, la0+wid*dy
        if abs(la) == 85:
            # one point each 90 degrees: those around the cell
            o = 0 if la > 0 else 40
            lon = (lo0-o)//90*90+o+90*dx
        p = (la, (lon+180) % 360-180)
        here = [(b, d.igp_idx[b].index(grid(b).index(p))) for b in bands if p in grid(b)]
        here = [(b, k) for b, k in here if d.givei[b][k] not in (0, 15)]
        g.ensure('a corner is used when it is monitored', (i in igp) == bool(here))
        if here and i in igp:
            b, k = here[-1]
            g.ensure('delay of the corner', And(igp[i][0] == d.vtec[b][k], igp[i][1] == d.givei[b][k]))


@contract('V03', fns=['sbas:ionoSBAS'], n=600, tmo=60)
def interpolation(g):
    """bilinear in four points, the plane through three when the point is inside them"""
    d = dec(g)
    have = g.choice('have', [(0, 1, 2, 3), (0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3), (0, 3), (2,), ()])
    a, b, c, q = [g.real(k, -50, 50) for k in 'abcq']
    x, y = g.real('x', 0, 1), g.real('y', 0, 1)
    sf = g.real('sf', 1, 4)
    if len(have) == 3:
        q = 0
    D = (a, a+c, a+b, a+b+c+q)
    giv = {i: g.choice('give%d' % i, [1, 14]) for i in have}
    igp = {i: [D[i], giv[i]] for i in have}
    el = g.choice('el', [0.5, 1.4, 0.0, -0.2])
    h = g.choice('h', [50.0, -200.0])
    age = g.int('age', 0, 600)
    gt = resolve('gnss:gtime_t')
    d.inet = 3
    d.lc[3].t0 = {0: {CT('VTEC'): gt(d.time.time-age, d.time.sec)}}
    with g.stub('sbas:searchIGP', lambda *_: (igp, x, y)), g.stub('sbas:ionppp', lambda *_: (sf, [0.3, 0.4])):
        v, var = g.call('sbas:ionoSBAS', d.time, g.array([0.5, 0.6, h]), 1.0, el, d)
    tri = {(0, 1, 2): x+y <= 1, (0, 2, 3): y <= x, (0, 1, 3): x <= y, (1, 2, 3): x+y >= 1}
    ok = And(el > 0, h > -100, len(have) >= 3, tri.get(have, True))
    g.ensure('delay', And(Implies(ok, close(v, sf*(a+b*x+c*y+q*x*y), 1e-6)), Implies(Not(ok), v == 0)))
    GIVE = (0.0084, 0.0333, 0.0749, 0.1331, 0.2079, 0.2994, 0.4075, 0.5322, 0.6735, 0.8315, 1.1974, 1.8709, 3.3260, 20.787, 187.0826)
    wgt = {(0, 1, 2): (1-x-y, y, x, 0), (0, 2, 3): (1-x, 0, x-y, y), (0, 1, 3): (1-y, y-x, 0, x), (1, 2, 3): (0, 1-x, 1-y, x+y-1)}.get(
        have, ((1-x)*(1-y), (1-x)*y, x*(1-y), x*y))
    want = sf*sf*9e-8*age*sum(wgt[i]*GIVE[giv[i]] for i in have)
    g.ensure('variance of the corners, grown with age', And(var >= 0, Implies(ok, close(var, want, 1e-9)), Implies(Not(ok), var == 0)))
