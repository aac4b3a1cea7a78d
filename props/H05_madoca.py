"""H05 MADOCA-PPP wide-area ionosphere: areas, corrections, and the one used at a position."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases

M = 'cssr_mdc:cssr_mdc.'
F = [M+k for k in ('decode_cssr', 'decode_mdc_stec_area', 'decode_mdc_stec_corr', 'get_inet')]
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
SYS = [('GPS', 0, 0), ('GLO', 148, 0), ('GAL', 32, 0), ('BDS', 85, 0), ('QZS', 68, 192)]


def mdc(g):
    d = resolve('cssr_mdc:cssr_mdc')()
    d.monlevel = 0
    d.week, d.tow0, d.tow = 2300, 3600*30, 3600*30
    return d


@contract('H05', fns=[M+'get_inet'], n=200)
def correction_index(g):
    d = mdc(g)
    r1, r2 = g.choice('r1', list(NAREA)), g.choice('r2', list(NAREA))
    a1, a2 = g.int('a1', 1, 16), g.int('a2', 1, 16)
    g.assume(And(a1 <= NAREA[r1], a2 <= NAREA[r2]))
    i1, i2 = g.call(M+'get_inet', d, r1, a1), g.call(M+'get_inet', d, r2, a2)
    g.ensure('within the stored networks', And(i1 > 0, i1 < len(d.lc)))
    g.ensure('areas do not share corrections', Iff(i1 == i2, And(r1 == r2, a1 == a2)))
    g.ensure('no area', And(g.call(M+'get_inet', d, -1, a1) == -1, g.call(M+'get_inet', d, r1, -1) == -1))


@contract('H05', fns=F, n=300, tmo=40)
def area_message(g):
    d = mdc(g)
    n = g.choice('narea', [0, 1, 2, 3, 24])
    msg = g.buf('msg', 16+59+n*45+40)
    g.setfield(msg, 0, 12, 1)
    g.setfield(msg, 12, 4, 0)
    tow = g.field(msg, 16, 20)
    g.assume(tow < 604800)
    i = 45
    reg = g.choice('reg', [1, 3, 5])
    g.setfield(msg, i, 8, reg)
    i += 25
    g.setfield(msg, i, 5, n)
    i += 5
    old = object()
    d.pnt = {reg: {30: old}, 2: {1: old}}
    want = []
    for k in range(n):
        sid = g.choice('sid%d' % k, [0, 1]) if n < 4 else k*k % 3 % 2
        g.setfield(msg, i, 5, k+2)
        g.setfield(msg, i+5, 1, sid)
        i += 6
        if sid == 0:
            want.append((sid, g.field(msg, i, 11, True)*0.1, g.field(msg, i+11, 12)*0.1, g.field(msg, i+23, 8)*0.1, g.field(msg, i+31, 8)*0.1))
        else:
            want.append((sid, g.field(msg, i, 15, True)*0.01, g.field(msg, i+15, 16)*0.01, g.field(msg, i+31, 8)*10, None))
        i += 39
    g.setfield(msg, i, 12, 99)
    g.call(M+'decode_cssr', d, msg)
    g.ensure('reference hour', d.tow0 == tow-tow % 3600)
    g.ensure('other areas and regions kept', And(d.pnt[reg][30] is old, d.pnt[2][1] is old, len(d.pnt[reg]) == n+1))
    for k, (sid, la, lo, p1, p2) in enumerate(want):
        p = d.pnt[reg][k+2]
        g.ensure('reference point', And(p.sid == sid, close(p.latr, la, 1e-9), close(p.lonr, lo, 1e-9)))
        if sid == 0:
            g.ensure('half widths', And(close(p.lats, p1, 1e-9), close(p.lons, p2, 1e-9)))
        else:
            g.ensure('effective range', close(p.rng, p1, 1e-9))


NS = [[0, 0, 0, 0, 0], [1, 0, 1, 0, 0], [0, 1, 0, 1, 1], [2, 0, 0, 0, 1], [1, 1, 1, 1, 1], [31, 0, 17, 3, 1], [2, 24, 0, 31, 7]]
ORDER = ('c00', 'c01', 'c10', 'c11', 'c02', 'c20')


@contract('H05', fns=F, n=400, tmo=60)
def ionosphere_message(g):
    ns, st, (reg, area), before = cases(g, 16, ns=NS, stype=[0, 1, 2, 3], area=[(1, 1), (5, 8), (2, 16)], before=[0, 1])
    d = mdc(g)
    msg = g.buf('msg', 16+61+max(5, sum(ns))*90+30)
    g.setfield(msg, 0, 12, 2)
    g.setfield(msg, 12, 4, 0)
    dtow, iod = g.field(msg, 16, 12), g.field(msg, 33, 4)
    g.assume(dtow < 3600)
    i = 37
    for w, v in ((8, reg), (5, area), (2, st)):
        g.setfield(msg, i, w, v)
        i += w
    for v in ns:
        g.setfield(msg, i, 5, v)
        i += 5
    rows = []
    for k, (c, base, o) in enumerate(SYS):
        for q in range(ns[k]):
            prn = (3+4*q if ns[k] < 8 else 1+q) if c != 'QZS' else 2+q
            g.setfield(msg, i, 6, prn)
            r = {'sat': base+prn, 'q': g.field(msg, i+6, 6), 'c00': g.field(msg, i+12, 14, True)*0.05}
            i += 26
            for nm, need, w, s in (('c01', 1, 12, 0.02), ('c10', 1, 12, 0.02), ('c11', 2, 10, 0.02), ('c02', 3, 8, 0.005), ('c20', 3, 8, 0.005)):
                r[nm] = 0.0
                if st >= need:
                    r[nm] = g.field(msg, i, w, True)*s
                    i += w
            rows.append(r)
    g.setfield(msg, i, 12, 99)
    inet = g.call(M+'get_inet', d, reg, area)
    other = d.lc[inet+1]
    other.ci, other.sat_n = 'c', 's'
    L = d.lc[inet]
    if before:                                                # an earlier message of the same issue
        L.sat_n = [5]+[r['sat'] for r in rows[::-1]]
        L.nsat_n, L.inet_ref, L.cstat = len(L.sat_n), iod, 1 << CT('STEC')
        L.ci, L.stec_quality, L.stype = {s: np.full(6, 9.0) for s in L.sat_n}, {s: 3 for s in L.sat_n}, {s: 3-st for s in L.sat_n}
    g.call(M+'decode_cssr', d, msg)
    L = d.lc[inet]
    g.ensure('satellites of the message in order', And(L.nsat_n == len(rows), L.sat_n == [r['sat'] for r in rows], len(L.ci) == len(rows)))
    for r in rows if len(rows) < 9 else rows[:2]+rows[11:60:5]+rows[-2:]:
        for k, nm in enumerate(ORDER):
            g.ensure('coefficient '+nm, close(L.ci[r['sat']][k], r[nm], 1e-9))
        g.ensure('quality and type', And(L.stec_quality[r['sat']] == r['q'], L.stype[r['sat']] == st))
    g.ensure('epoch', same_time(L.t0[0][CT('STEC')], g.call('gnss:gpst2time', 2300, 3600*30+dtow)))
    g.ensure('issue and reception', And(L.inet_ref == iod, L.cstat & (1 << CT('STEC')) != 0))
    g.ensure('other areas untouched', other.ci == 'c' and other.sat_n == 's')


@contract('H05', fns=[M+'get_stec', M+'get_dpos'], n=300)
def delay_at_a_position(g):
    d = mdc(g)
    n = g.choice('n', [0, 1, 3])
    d.inet, d.reg, d.area = 12, 2, 4
    A = resolve('cssr_mdc:areaInfo')
    la, lo = g.real('latr', -90, 90), g.real('lonr', 0, 360)
    d.pnt = {2: {4: A(0, la, lo, 5, 5), 3: A(0, 1.0, 2.0, 3, 3)}}
    plat, plon = g.real('plat', -90, 90), g.real('plon', -180, 180)
    a, b = g.call(M+'get_dpos', d, g.array([plat*math.pi/180, plon*math.pi/180, 0.0]))
    g.ensure('offset from the reference point in degrees', And(close(a, plat-la, 1e-9, rel=False), Or(*[close(b, plon-lo+k, 1e-9, rel=False) for k in (-360, 0, 360, 720)]), b >= -180-1e-9, b <= 180+1e-9))
    L = d.lc[12]
    L.sat_n = [40, 3, 151][:n]
    L.nsat_n = n
    ci = {s: [g.real('c%d_%d' % (s, k), -20, 20) for k in range(6)] for s in L.sat_n}
    L.ci = {s: g.array(ci[s]) for s in L.sat_n}
    x, y = g.real('dlat', -9, 9), g.real('dlon', -9, 9)
    st = g.call(M+'get_stec', d, x, y)
    g.ensure('one delay per satellite', len(st) == n)
    for k, s in enumerate(L.sat_n):
        c = ci[s]
        g.ensure('polynomial', close(st[k], c[0]+c[1]*x+c[2]*y+c[3]*x*y+c[4]*x*x+c[5]*y*y, 1e-9))


@contract('H05', fns=[M+'find_grid_index', M+'get_inet'], n=1200, prove=False, why='trigonometric distance', conc_s=12)
def area_of_a_position(g):
    d = mdc(g)
    A = resolve('cssr_mdc:areaInfo')
    la, lo = g.real('la', -80, 80), g.real('lo', -180, 180)
    d.pnt = {}
    inside, edge = [], False
    if g.choice('crowd', [0, 0, 1]):          # areas elsewhere
        for reg in (1, 2):
            d.pnt[reg] = {11+k: A(k % 2, la-40 if la > 0 else la+40, (lo+7*k) % 360, 9.0, 9.0) for k in range(16)}
    for k in range(g.int('n', 0, 4)):
        reg, area = g.choice('reg%d' % k, [1, 2, 5]), g.int('area%d' % k, 1, 8)
        a, db = la+g.real('da%d' % k, -9, 9), g.real('db%d' % k, -12, 12)
        b = (lo+db) % 360
        if g.choice('sid%d' % k, [0, 1]):
            rng = 10.0*g.int('rng%d' % k, 1, 200)
            p = A(1, a, b, rng)
            q = math.hypot(math.radians(la-a), math.radians(db)*math.cos(math.radians(a)))*6378.137
            i, near = q <= rng, abs(q-rng) < 1e-3
        else:
            u, v = g.real('u%d' % k, 0.1, 10), g.real('v%d' % k, 0.1, 10)
            p = A(0, a, b, u, v)
            i, near = abs(la-a) <= u and abs(db) <= v, min(abs(abs(la-a)-u), abs(abs(db)-v)) < 1e-6
        g.assume(not near and (reg, area) not in [(r, c) for r in d.pnt for c in d.pnt[r]])
        d.pnt.setdefault(reg, {})[area] = p
        if i:
            inside.append((reg, area))
    n = g.call(M+'find_grid_index', d, np.radians([la, lo, 0.0]))
    if not inside:
        g.ensure('no area contains the position', n == -1)
    else:
        g.ensure('an area containing the position', (d.reg, d.area) in inside and n == sum(NAREA[r] for r in NAREA if r < d.reg)+d.area)
