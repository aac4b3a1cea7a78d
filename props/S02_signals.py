"""S02 signal codes: RINEX names, validity per constellation, carrier frequencies."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff, resolve, Raised

# RINEX 4.01 tables 4-10 (band -> tracking attributes), written from the standard
RNX = {
    'GPS': {1: 'CSLXPWYM', 2: 'CDSLXPWYM', 5: 'IQX'},
    'GLO': {1: 'CP', 2: 'CP', 3: 'IQX', 4: 'ABX', 6: 'ABX'},
    'GAL': {1: 'ABCXZ', 5: 'IQX', 6: 'ABCXZ', 7: 'IQX', 8: 'IQX'},
    'SBS': {1: 'C', 5: 'IQX'},
    'QZS': {1: 'CESLXZB', 2: 'SLX', 5: 'IQXDPZ', 6: 'SLXEZ'},
    'BDS': {1: 'DPXSLZ', 2: 'IQX', 5: 'DPX', 6: 'IQXDPZ', 7: 'IQXDPZ', 8: 'DPX'},
    'IRN': {1: 'DPX', 5: 'ABCX', 9: 'ABCX'},
}
# codes without a measurable pseudorange/unlisted variants the code also takes
LENIENT = {('GPS', 2): 'N', ('GPS', 1): 'N', ('GLO', 1): 'X', ('GLO', 2): 'X'}
MHZ = {
    'GPS': {1: 1575.42, 2: 1227.60, 5: 1176.45},
    'GLO': {3: 1202.025, 4: 1600.995, 6: 1248.06},
    'GAL': {1: 1575.42, 5: 1176.45, 6: 1278.75, 7: 1207.14, 8: 1191.795},
    'SBS': {1: 1575.42, 5: 1176.45},
    'QZS': {1: 1575.42, 2: 1227.60, 5: 1176.45, 6: 1278.75},
    'BDS': {1: 1575.42, 2: 1561.098, 5: 1176.45, 6: 1268.52, 7: 1207.14, 8: 1191.795},
    'IRN': {1: 1575.42, 5: 1176.45, 9: 2492.028},
}
SYS = list(RNX)
LET = {'GPS': 'G', 'GLO': 'R', 'GAL': 'E', 'BDS': 'C', 'QZS': 'J', 'SBS': 'S', 'IRN': 'I'}
TY = 'CLDS'
F = ['gnss:rSigRnx', 'gnss:char2sys', 'gnss:sys2char']


def gn(s):
    return getattr(resolve('gnss:uGNSS'), s)


def codes():
    return [(s, b, a) for s in SYS for b in RNX[s] for a in RNX[s][b]]


@contract('S02', fns=F, n=700, max_paths=3000, weight=2, conc_s=10)
def valid_codes_read_back(g):
    s, b, a = g.choice('code', codes())
    t = g.choice('typ', TY)
    txt = '%s%d%s' % (t, b, a)
    r = g.call('gnss:rSigRnx', gn(s), txt)
    g.ensure('constellation', r.sys == gn(s))
    g.ensure('type', r.typ == TY.index(t)+1)
    g.ensure('band and attribute', r.sig == b*100+ord(a)-64)
    g.ensure('printed form', g.call('gnss:rSigRnx.str', r) == txt)
    g.ensure('full printed form', g.call('gnss:rSigRnx.__repr__', r) == LET[s]+txt)
    g.ensure('from full printed form', g.call('gnss:rSigRnx.__eq__', g.call('gnss:rSigRnx', LET[s]+txt), r))
    g.ensure('band', g.call('gnss:rSigRnx.band', r) == b*100)


@contract('S02', fns=F, n=300, max_paths=3000, weight=2, conc_s=10)
def change_of_type_and_attribute(g):
    s, b, a = g.choice('code', codes())
    t, t2 = g.choice('typ', TY), g.choice('typ2', TY)
    r = g.call('gnss:rSigRnx', gn(s), '%s%d%s' % (t, b, a))
    q = g.call('gnss:rSigRnx.toTyp', r, resolve('gnss:uTYP')(TY.index(t2)+1))
    g.ensure('new type, same signal', And(q.sys == r.sys, q.sig == r.sig, q.typ == TY.index(t2)+1))
    g.ensure('original unchanged', r.typ == TY.index(t)+1)
    a2 = RNX[s][b][-1]
    w = g.call('gnss:rSigRnx.toAtt', r, a2)
    g.ensure('new attribute, same band and type', And(w.sys == r.sys, w.typ == r.typ, w.sig == b*100+ord(a2)-64))
    w0 = g.call('gnss:rSigRnx.toAtt', r)
    g.ensure('attribute removed', And(w0.sys == r.sys, w0.typ == r.typ, w0.sig == b*100))


@contract('S02', fns=F, n=300, max_paths=9000, tmo=100, weight=3, conc_s=15)
def codes_of_other_systems_are_refused(g):
    s = g.choice('sys', SYS)
    b = g.choice('band', list(RNX[s]))
    a = g.choice('att', [chr(65+k) for k in range(26)])
    t = g.choice('typ', 'CL')
    if a in RNX[s][b] or a in LENIENT.get((s, b), ''):
        g.ensure('accepted', True)
        return
    r = g.attempt('gnss:rSigRnx', gn(s), '%s%d%s' % (t, b, a))
    g.ensure('refused', isinstance(r, Raised) and isinstance(r.ex, ValueError), str(r) if not isinstance(r, Raised) else '')


@contract('S02', fns=F, n=100)
def malformed_codes_are_refused(g):
    s = g.choice('sys', SYS)
    bad = g.choice('text', ['X1C', '1CC', ' 1C', 'C', '', 'CXC', 'c1c'])
    r = g.attempt('gnss:rSigRnx', gn(s), bad)
    g.ensure('refused', isinstance(r, Raised) and isinstance(r.ex, ValueError))
    r = g.attempt('gnss:rSigRnx', g.choice('txt4', ['G', 'GC', 'GC1WW', 'GX1W']))
    g.ensure('refused (one argument)', isinstance(r, Raised) and isinstance(r.ex, ValueError))


@contract('S02', fns=F, n=300, max_paths=1500, conc_s=10)
def carrier_frequency(g):
    s = g.choice('sys', SYS)
    b = g.choice('band', range(1, 10))
    sig = {1: 'L1', 2: 'L2', 3: 'L3', 4: 'L4', 5: 'L5', 6: 'L6', 7: 'L7', 8: 'L8', 9: 'L9'}[b]
    r = g.call('gnss:rSigRnx', gn(s), resolve('gnss:uTYP').L, getattr(resolve('gnss:uSIG'), sig))
    if s == 'GLO' and b in (1, 2):
        k = g.int('k', -7, 6)
        f = g.call('gnss:rSigRnx.frequency', r, k)
        ref = (1602.0e6+k*562.5e3) if b == 1 else (1246.0e6+k*437.5e3)
        g.ensure('FDMA frequency', close(f, ref, 1e-12))
        g.ensure('FDMA wavelength', close(g.call('gnss:rSigRnx.wavelength', r, k)*f, 299792458.0, 1e-12))
        g.ensure('no frequency without a channel', g.call('gnss:rSigRnx.frequency', r) is None)
        return
    f = g.call('gnss:rSigRnx.frequency', r)
    w = g.call('gnss:rSigRnx.wavelength', r)
    if b in MHZ[s]:
        g.ensure('frequency', f is not None and abs(f-MHZ[s][b]*1e6) < 1)
        g.ensure('wavelength', w is not None and abs(w*f-299792458.0) < 1e-3)
    elif b in (4, 6) and s == 'GLO':
        pass
    else:
        g.ensure('no carrier', f is None and w is None if not (s == 'GLO' and b == 5) else True)


@contract('S02', fns=F, n=200, max_paths=1500)
def equality_and_hash(g):
    cs = codes()
    a, b = g.choice('a', cs[::7]), g.choice('b', cs[::5])
    x = g.call('gnss:rSigRnx', gn(a[0]), 'L%d%s' % a[1:])
    y = g.call('gnss:rSigRnx', gn(b[0]), 'L%d%s' % b[1:])
    g.ensure('equal exactly when the codes are equal', g.call('gnss:rSigRnx.__eq__', x, y) == (a == b))
    z = g.call('gnss:rSigRnx', gn(a[0]), 'C%d%s' % a[1:])
    g.ensure('type matters', not g.call('gnss:rSigRnx.__eq__', x, z))
    g.ensure('equal signals hash equal', g.call('gnss:rSigRnx.__hash__', x) == g.call('gnss:rSigRnx.__hash__', g.call('gnss:rSigRnx', gn(a[0]), 'L%d%s' % a[1:])))
    g.ensure('encrypted GPS code', g.call('gnss:rSigRnx.isGPS_PY', x) == (a in (('GPS', 1, 'W'), ('GPS', 2, 'W'))))


SCALES = [5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39,
          40, 41, 43, 44, 46, 48, 49, 50, 51, 55, 57, 59, 60, 66, 68]


@contract('S02', fns=['gnss:rCST'], n=1)
def constants(g):
    c = resolve('gnss:rCST')
    for n in SCALES:
        if hasattr(c, 'P2_%d' % n):
            g.ensure('power of two %d' % n, abs(getattr(c, 'P2_%d' % n)*2.0**n-1) < 1e-14)
    g.ensure('speed of light', c.CLIGHT == 299792458.0)
    g.ensure('angles', abs(c.D2R*c.R2D-1) < 1e-15 and abs(c.D2R*180-3.141592653589793) < 1e-14 and abs(c.AS2R*3600-c.D2R) < 1e-18)
    g.ensure('durations', c.DAY_SEC == 86400 and c.WEEK_SEC == 604800 and c.HALFWEEK_SEC == 302400 and c.CENTURY_SEC == 86400.0*36525)
    g.ensure('gravity and rotation', (c.MU_GPS, c.MU_GAL, c.MU_BDS, c.MU_GLO, c.OMGE, c.OMGE_GAL, c.OMGE_BDS, c.OMGE_GLO) ==
             (3.986005e14, 3.986004418e14, 3.986004418e14, 3.9860044e14, 7.2921151467e-5, 7.2921151467e-5, 7.2921150e-5, 7.292115e-5))
    g.ensure('ellipsoid', c.RE_WGS84 == 6378137.0 and abs(1/c.FE_WGS84-298.257223563) < 1e-9)
