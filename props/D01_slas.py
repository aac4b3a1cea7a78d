"""D01 QZSS SLAS (DGPS): corrections of each station reach the satellites of the mask, and the nearest station is used."""
import math
from contextlib import ExitStack
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, Implies, close, resolve
from .f_common import G, Patch, cases
from .cssr_common import CT, same_time

D = 'dgps:dgpsDec.'
ORD = [('GPS', 64, 0), ('QZS', 9, 192), ('GLO', 36, 0), ('GAL', 36, 0), ('BDS', 36, 0)]
MASKS = [[('GPS', 3), ('GPS', 64), ('QZS', 1), ('QZS', 9), ('GLO', 24), ('GAL', 1), ('GAL', 36), ('BDS', 36)], [], [('GPS', 1), ('BDS', 1)],
         [('GPS', k) for k in range(2, 18)]+[('QZS', 2), ('QZS', 3)]]


def num(sy, k):
    if sy == 'GPS' and k > 32:
        return None
    return resolve('gnss:prn2sat')(getattr(G, sy), k+dict((a, c) for a, b, c in ORD)[sy])


MASKS[0] = [('GPS', 3), ('GPS', 32), ('QZS', 1), ('QZS', 9), ('GLO', 24), ('GAL', 1), ('GAL', 36), ('BDS', 36)]


def dec(g):
    resolve('dgps:dgpsDec')
    with Patch('dgps', jmaDec=lambda **k: None, camfDec=lambda **k: None):    # text tables of the early warning service
        d = resolve('dgps:dgpsDec')()
    d.monlevel = 0
    d.time = resolve('gnss:gtime_t')(1700000000, 0.0)
    g.lift(d, 1)
    return d


def msg(g, nm, mt):
    m = g.buf(nm, 256)
    g.setfield(m, 0, 8, 0x53)
    g.setfield(m, 8, 6, mt)
    return m


def mask(g, nm, ms, iodp=None):
    m = msg(g, nm, 48)
    if iodp is not None:
        g.setfield(m, 14, 2, iodp)
    i = 16
    for sy, w, _ in ORD:
        g.setfield(m, i, w, sum(1 << (w-k) for s, k in ms if s == sy))
        i += w
    return m


def send(g, d, m):
    return g.call(D+'decode_cssr', d, m)


def ordered(ms):
    return [num(s, k) for sy, _, _ in ORD for s, k in sorted(ms) if s == sy]


@contract('D01', fns=[D+'decode_cssr', D+'decode_mt48', 'cssrlib:cssr.decode_mask'], n=200)
def satellites(g):
    d = dec(g)
    ms = MASKS[g.choice('mask', range(len(MASKS)))]
    m = mask(g, 'a', ms)
    p = g.field(m, 14, 2)
    send(g, d, m)
    w = ordered(ms)
    g.ensure('satellites of the mask in order', And(list(d.sat) == w, d.nsat == len(w)))
    g.ensure('issue of the mask', And(d.iodp == p, d.iodssr == p, d.lc[0].cstat & (1 << CT('MASK')) != 0))


@contract('D01', fns=[D+'decode_mt48', D+'decode_mt49', D+'decode_mt50'], n=300, tmo=120)
def corrections(g):
    """corrections enter with the issue of data of the current mask only"""
    k1, kd, bad, code, re = cases(g, 40, k1=[0, 2, 3], kd=[0, 1, 2, 3], bad=['', '', '', 'mask', 'issue', 'health', 'newmask', 'samemask', 'iodp49'],
                                  code=[0, 5, 31, 32, 62], re=[0, 1, 2])
    d = dec(g)
    ms = MASKS[k1]
    sl = ordered(ms)
    n = len(sl)
    P, I = g.int('iodp', 0, 3), g.int('iodi', 0, 3)
    send(g, d, mask(g, 'm', ms, P))
    if re and bad != 'iodp49' and n:                # issues received before, under the same or another number
        g.setfield(m0 := msg(g, 'i0', 49), 223, 2, P)
        g.setfield(m0, 14, 2, I if re == 1 else (I+1) % 4)
        g.setfield(m0, 16, 23, sum(1 << (22-k) for k in range(min(n, 23))))
        send(g, d, m0)
    m = msg(g, 'i', 49)
    pat = lambda q: [[1]*n, [0]*n, [int(k % 3 != q % 3) for k in range(n)], [int(k == n-1) for k in range(n)]][q % 4]
    have, want = pat([0, 0, 2, 3][kd]), pat([0, 2, 0, 0][kd])
    if sum(want) > 14:
        want = want[:14]+[0]*(n-14)
    bits = lambda b: sum(v << (22-k) for k, v in enumerate(b))
    g.setfield(m, 223, 2, P if bad != 'iodp49' else (P+1) % 4)
    g.setfield(m, 14, 2, I)
    g.setfield(m, 16, 23, bits(have))
    iod = {}
    i = 39
    for k in range(n):
        if have[k]:
            if i+8 > 223:
                have[k] = 0
                continue
            iod[k] = g.field(m, i, 8)
            i += 8
    g.setfield(m, 16, 23, bits(have))
    send(g, d, m)
    if bad == 'iodp49':
        iod = {}
        g.ensure('issues of another mask are not taken', d.iodi == -1)
    if re:
        d.lc[code+1].dclk = {sl[0]: 99.0}
        d.lc[code+1].iode = {sl[0]: 7}
        d.lc[code+1].sat_n = [sl[0]]
    if bad in ('newmask', 'samemask'):
        send(g, d, mask(g, 'm2', ms, P if bad == 'samemask' else (P+1) % 4))
    c = msg(g, 'c', 50)
    cp = (P+1) % 4 if bad in ('mask', 'newmask') else P
    g.setfield(c, 14, 2, cp)
    ci = (I+1) % 4 if bad == 'issue' else I
    g.setfield(c, 16, 2, ci)
    g.setfield(c, 18, 6, code)
    g.setfield(c, 24, 1, 1 if bad == 'health' else 0)
    g.setfield(c, 25, 23, bits(want))
    i = 48
    prc = {}
    for k in range(n):
        if want[k]:
            prc[k] = g.field(c, i, 12, True)
            i += 12
    send(g, d, c)
    L = d.lc[code+1]
    if bad in ('mask', 'issue', 'health', 'newmask', 'iodp49'):
        if re:
            g.ensure('a message of another mask or issue or an unhealthy station changes nothing', And(L.dclk == {sl[0]: 99.0}, L.iode == {sl[0]: 7}, L.sat_n == [sl[0]]))
        else:
            g.ensure('a message of another mask or issue or an unhealthy station changes nothing', And(not L.dclk, not L.iode, L.sat_n == []))
        return
    ok = [k for k in range(n) if want[k] and k in iod]
    g.ensure('satellites with correction and issue', And(L.sat_n == [sl[k] for k in ok], set(L.dclk) == {sl[k] for k in ok}, set(L.iode) == {sl[k] for k in ok}))
    for k in ok:
        s = sl[k]
        g.ensure('correction in metres', close(L.dclk[s], prc[k]*0.04, 1e-9))
        g.ensure('issue of data of the satellite', L.iode[s] == iod[k])
        g.ensure('no orbit correction', all(float(v) == 0 for v in L.dorb[s]))
        g.ensure('epoch', And(same_time(L.t0[s][CT('CLOCK')], d.time), same_time(L.t0[s][CT('ORBIT')], d.time)))
    g.ensure('mask of the station', d.iodp_c[code+1] == P)
    for q in (1, 6, 32, 33, 63):
        if q != code+1:
            g.ensure('other stations', And(d.lc[q].sat_n == [], not d.lc[q].dclk))
    g.ensure('reception', And(d.lc[0].cstat & (1 << CT('CLOCK')) != 0, d.lc[0].cstat & (1 << CT('ORBIT')) != 0))


@contract('D01', fns=[D+'decode_mt47'], n=200)
def stations(g):
    d = dec(g)
    old = [[float(v) for v in r] for r in d.posr]
    m = msg(g, 's', 47)
    cs = g.choice('codes', [[0, 1, 2, 3, 4], [63, 5, 62, 63, 7], [63]*5, [10, 63, 63, 63, 63], [61, 12, 0, 33, 32], [63, 63, 63, 63, 0]])
    D2R = math.pi/180
    for k, c in enumerate(cs):
        g.setfield(m, 14+42*k, 6, c)
    send(g, d, m)
    for k, c in enumerate(cs):
        if c == 63:
            continue
        la, lo, al = g.field(m, 20+42*k, 15, True), g.field(m, 35+42*k, 15, True), g.field(m, 50+42*k, 6)
        g.ensure('position of the station', And(close(d.posr[c, 0]/D2R, la*0.005, 1e-9), close(d.posr[c, 1]/D2R, lo*0.005+115, 1e-9),
                                                close(d.posr[c, 2], al*50-100, 1e-9)))
    for c in range(64):
        if c not in cs:
            g.ensure('other stations keep their place', And(*[d.posr[c, q] == old[c][q] for q in range(3)]))


@contract('D01', fns=[D+'decode_mt51'], n=100)
def health(g):
    d = dec(g)
    m = msg(g, 'h', 51)
    send(g, d, m)
    i = 14
    for sy, w, _ in ORD:
        g.ensure('health flags of '+sy, d.svh[getattr(G, sy)] == g.field(m, i, w))
        i += w


@contract('D01', fns=[D+'set_dgps_corr'], n=200)
def apply(g):
    d = dec(g)
    a, b, none = g.choice('a', [0, 12, 62]), g.choice('b', [3, 33]), g.choice('state', ['ok', 'nomask', 'noissue', 'empty'])
    d.iodp = -1 if none == 'nomask' else g.int('iodp', 0, 3)
    d.iodi = -1 if none == 'noissue' else 2
    for q, s in ((a, 5), (b, 9)):
        L = d.lc[q+1]
        L.sat_n, L.iode, L.dclk, L.dorb, L.t0 = [s], {s: s+1}, {s: g.real('c%d' % s, -9, 9)}, {s: np.zeros(3)}, {s: {}}
        d.iodp_c[q+1] = s % 4
    near = [a]
    rng = g.real('rng', 0, 1e6)
    with g.stub(D+'get_station', lambda self, r: (near[0], rng)):
        if none == 'empty':
            g.call(D+'set_dgps_corr', d, np.zeros(3))
            near[0] = 20          # no corrections of this station
        r = g.call(D+'set_dgps_corr', d, np.zeros(3))
    if none in ('nomask', 'noissue'):
        g.ensure('nothing to apply', And(r == -1, not d.lc[0].dclk))
        return
    L = d.lc[a+1]
    g.ensure('station in use', d.inet == a+1)
    g.ensure('distance to the nearest station', close(r, rng*1e-3, 1e-9))
    g.ensure('corrections of that station', And(d.lc[0].dclk == L.dclk, d.lc[0].iode == L.iode, d.lc[0].dorb is L.dorb, d.lc[0].t0 == L.t0, d.sat_n == [5]))
    g.ensure('mask of that station', And(d.iodssr_c[CT('CLOCK')] == 1, d.iodssr_c[CT('ORBIT')] == 1))


@contract('D01', fns=[D+'get_station'], n=300, prove=False, why='arg-min over floating-point distances')
def nearest(g):
    d = dec(g)
    m = g.choice('n', [0, 1, 5, 14])
    d.posr = np.zeros((64, 3))
    pts = {}
    for k in range(m):
        c = (k*17+3) % 63
        pts[c] = (g.real('la%d' % k, 0.35, 0.8), g.real('lo%d' % k, 2.1, 2.6))
        d.posr[c, :2] = pts[c]
    la, lo = g.real('la', 0.35, 0.8), g.real('lo', 2.1, 2.6)
    r = g.call('gnss:pos2ecef', np.array([la, lo, 50.0]))
    k, dist = g.call(D+'get_station', d, r)
    if not m:
        g.ensure('no station', And(k == -1, dist == -1))
        return
    ds = {c: 6378137.0*math.hypot(p[0]-la, (p[1]-lo)*math.cos(la)) for c, p in pts.items()}
    g.ensure('nearest station', And(k in ds, abs(ds[int(k)]-min(ds.values())) < 1e-3, abs(dist-min(ds.values())) < 1e-3))


@contract('D01', fns=[D+'check_validity'], n=200)
def expire(g):
    d = dec(g)
    gt = resolve('gnss:gtime_t')
    tc, to = g.int('tc', 1699999000, 1700000000), g.int('to', 1699999000, 1700000000)
    L = d.lc[0]
    d.sat_n = [5, 9]
    L.dclk, L.iode, L.dorb = {5: 1.5, 9: 2.5}, {5: 11, 9: 12}, {5: g.array([1.0, 2.0, 3.0]), 9: g.array([4.0, 5.0, 6.0])}
    now = gt(1700000000, 0.0)
    L.t0 = {5: {CT('CLOCK'): gt(tc, 0.0), CT('ORBIT'): gt(to, 0.0)}, 9: {CT('CLOCK'): now, CT('ORBIT'): now}}
    g.call(D+'check_validity', d, now)
    oc, oo = 1700000000-tc > 120, 1700000000-to > 120
    g.ensure('correction older than 120 s', L.dclk[5] == Ite(oc, 0.0, 1.5))
    g.ensure('issue older than 120 s', And(L.iode[5] == Ite(oo, -1, 11), *[L.dorb[5][k] == Ite(oo, 0.0, k+1.0) for k in range(3)]))
    g.ensure('fresh corrections are kept', And(L.dclk[9] == 2.5, L.iode[9] == 12, float(L.dorb[9][0]) == 4.0))


@contract('D01', fns=['dgps:vardgps'], n=200, prove=False, why='exponentials: compared numerically')
def variance(g):
    nav = resolve('gnss:Nav')(1)
    el, h, base = g.real('el', 0.1, 1.5), g.real('h', 0, 5000), g.real('base', 0, 1000)
    nav.x = g.call('gnss:pos2ecef', np.array([0.6, 2.4, h]))
    nav.baseline = base
    r = g.call('dgps:vardgps', el, nav)
    R, e = 6378137.0, math.degrees(el)
    F = 1/math.sqrt(1-(R*math.cos(el)/(R+h))**2)
    want = (0.16+1.07*math.exp(-e/15.5))**2+0.08**2+0.11**2+(0.13+0.53*math.exp(-e/10))**2+(F*0.004*(base+14))**2
    g.ensure('variance of a corrected pseudorange', close(r, want, 1e-4))
