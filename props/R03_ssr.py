"""R03 RTCM and IGS SSR: corrections reach the satellites and signals the message names."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases

M = 'rtcm:rtcm.'
SYS = ['GPS', 'GLO', 'GAL', 'QZS', 'BDS', 'SBS']
KIND = ['orb', 'clk', 'cb', 'oc', 'ura', 'hr', 'pb']
FIRST = {'GPS': 1057, 'GLO': 1063, 'GAL': 1240, 'QZS': 1246, 'SBS': 1252, 'BDS': 1258}
PB = {'GPS': 1265, 'GLO': 1266, 'GAL': 1267, 'QZS': 1268, 'SBS': 1269, 'BDS': 1270}
IGS = {'GPS': 20, 'GLO': 40, 'GAL': 60, 'QZS': 80, 'BDS': 100, 'SBS': 120}
IGK = {'orb': 1, 'clk': 2, 'oc': 3, 'hr': 4, 'cb': 5, 'pb': 6, 'ura': 7}
TST = {'GPS': {'orb': 1057, 'clk': 1058, 'cb': 1059, 'ura': 1061}, 'GLO': {'orb': 41, 'clk': 42, 'cb': 43, 'ura': 45},
       'GAL': {'orb': 62, 'clk': 65, 'cb': 68, 'ura': 74}, 'QZS': {'orb': 64, 'clk': 67, 'cb': 70, 'ura': 76}, 'BDS': {'clk': 66, 'cb': 69, 'ura': 75}}
OFS = {'QZS': 192, 'SBS': 119}
SV = {'GPS': [[], [5], [1, 32, 17]], 'GLO': [[], [24], [1, 9, 17]], 'GAL': [[], [11], [1, 36, 5]], 'QZS': [[], [2], [1, 7, 3]], 'BDS': [[], [33], [1, 60, 5]],
      'SBS': [[], [18], [1, 39, 2]]}
NSAT = {'GPS': 32, 'GLO': 24, 'GAL': 36, 'QZS': 7, 'BDS': 63, 'SBS': 39}
SIG = {'GPS': {0: '1C', 1: '1P', 2: '1W', 5: '2C', 6: '2D', 7: '2S', 8: '2L', 9: '2X', 10: '2P', 11: '2W', 14: '5I', 15: '5Q', 17: '1S', 18: '1L'},
       'GLO': {0: '1C', 1: '1P', 2: '2C', 3: '2P'},
       'GAL': {0: '1A', 1: '1B', 2: '1C', 3: '1X', 4: '1Z', 5: '5I', 6: '5Q', 7: '5X', 8: '7I', 9: '7Q', 10: '7X', 11: '8I', 12: '8Q', 13: '8X', 14: '6A',
               15: '6B', 16: '6C', 17: '6X', 18: '6Z'},
       'QZS': {0: '1C', 1: '1S', 2: '1L', 3: '2S', 4: '2L', 5: '2X', 6: '5I', 7: '5Q', 8: '5X', 9: '6S', 10: '6L', 11: '6X'},
       'BDS': {0: '2I', 1: '2Q', 2: '2X', 3: '6I', 4: '6Q', 5: '6X', 6: '7I', 7: '7Q', 8: '7X', 9: '1D', 10: '1P', 11: '1X', 12: '5D', 13: '5P', 14: '5X'},
       'SBS': {0: '1C', 1: '5I', 2: '5Q', 3: '5X'}}


def number(sy, k):
    return resolve('gnss:prn2sat')(U(sy), k+OFS.get(sy, 0))


def dec(g):
    d = resolve('rtcm:rtcm')()
    d.monlevel = 0
    g.lift(d, 2)
    d.week = 2300
    d.time = g.call('gnss:gpst2time', 2300, 40000)
    return d


TOD = 50815.0      # Moscow time of day of a GLONASS message: 39997 s of GPS time


class Ssr:
    """an SSR message for the given satellites, laid out in a buffer"""

    def __init__(s, g, nm, sy, kind, igs, svs, tow, sgs=None, mt=None, nb=1400):
        s.g, s.kind, s.sy = g, kind, sy
        s.m = m = g.buf(nm, nb)
        i = 36
        if igs:
            g.setfield(m, 24, 12, 4076)
            s.ver = g.field(m, i, 3)
            g.setfield(m, i+3, 8, IGS[sy]+IGK[kind])
            i += 11
        else:
            g.setfield(m, 24, 12, mt or (PB[sy] if kind == 'pb' else FIRST[sy]+KIND.index(kind)))
        w = 17 if sy == 'GLO' and not igs else 20
        g.setfield(m, i, w, int(TOD) if w == 17 else tow)
        s.time = 315964800+604800*2300+(int(TOD)-10800+18 if w == 17 else tow)
        i += w
        s.udi, s.mi = g.field(m, i, 4), g.field(m, i+4, 1)
        i += 5
        datum = kind in ('orb', 'oc')
        if datum and not igs:
            s.datum = g.field(m, i, 1)
            i += 1
        s.iod, s.pid, s.sid = g.field(m, i, 4), g.field(m, i+4, 16), g.field(m, i+20, 4)
        i += 24
        if datum and igs:
            s.datum = g.field(m, i, 1)
            i += 1
        if kind == 'pb':
            i += 2
        g.setfield(m, i, 6, len(svs))
        i += 6
        sw = 6 if igs else {'GLO': 5, 'QZS': 4}.get(sy, 6)
        iw = 8 if igs else {'GAL': 10, 'SBS': 24}.get(sy, 8)
        s.f, s.sat = {}, []
        for k, v in enumerate(svs):
            n = number(sy, v)
            s.sat.append(n)
            g.setfield(m, i, sw, v)
            i += sw
            f = s.f[n] = {}

            def take(nm, w, sg=False):
                nonlocal i
                f[nm] = g.field(m, i, w, sg)
                i += w
            if kind in ('orb', 'oc'):
                take('iode', iw)
                for a, w in (('d0', 22), ('d1', 20), ('d2', 20), ('v0', 21), ('v1', 19), ('v2', 19)):
                    take(a, w, True)
            if kind in ('clk', 'oc'):
                for a, w in (('c0', 22), ('c1', 21), ('c2', 27)):
                    take(a, w, True)
            if kind == 'hr':
                take('h', 22, True)
            if kind == 'ura':
                take('cl', 3)
                take('va', 3)
            if kind in ('cb', 'pb'):
                ss = sgs[k % len(sgs)]
                g.setfield(m, i, 5, len(ss))
                i += 5
                if kind == 'pb':
                    take('yaw', 9)
                    take('dyaw', 8, True)
                for c in ss:
                    g.setfield(m, i, 5, c)
                    i += 5
                    if kind == 'pb':
                        take(('si', c), 1)
                        take(('wl', c), 2)
                        take(('di', c), 4)
                    take(('b', c), 20 if kind == 'pb' else 14, True)
                f['sig'] = ss
        s.end = i

    def send(s, d):
        return s.g.call(M+'decode', d, s.m)


def val(got, raw, w, q):
    bad = raw == -(1 << (w-1))
    return And(Iff(bad, isnan(got)), Implies(Not(bad), close(got/q, raw)))


UNIT = {'d0': (22, 1e-4), 'd1': (20, 4e-4), 'd2': (20, 4e-4), 'v0': (21, 1e-6), 'v1': (19, 4e-6), 'v2': (19, 4e-6), 'c0': (22, 1e-4), 'c1': (21, 1e-6), 'c2': (27, 2e-8)}
ST = {'orb': ['ORBIT'], 'clk': ['CLOCK'], 'oc': ['ORBIT', 'CLOCK'], 'hr': ['HCLOCK'], 'ura': ['URA'], 'cb': ['CBIAS'], 'pb': ['PBIAS']}
TBL = {'orb': ('iode', 'dorb', 'ddorb'), 'clk': ('dclk', 'ddclk', 'dddclk'), 'oc': ('iode', 'dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk'), 'hr': ('hclk',),
       'ura': ('ura',), 'cb': ('cbias',), 'pb': ('pbias', 'si', 'di', 'wl', 'yaw', 'dyaw')}
CH = {'GPS': 'G', 'GLO': 'R', 'GAL': 'E', 'SBS': 'S', 'QZS': 'J', 'BDS': 'C'}


def values(g, d, x, n):
    """the corrections of satellite n are those of the message"""
    L, f = d.lc[0], x.f[n]
    if x.kind in ('orb', 'oc'):
        g.ensure('issue of the ephemeris', L.iode[n] == f['iode'])
        for k in range(3):
            g.ensure('orbit correction', val(L.dorb[n][k], f['d%d' % k], *UNIT['d%d' % k]))
            g.ensure('orbit rate', val(L.ddorb[n][k], f['v%d' % k], *UNIT['v%d' % k]))
    if x.kind in ('clk', 'oc'):
        for nm, a in (('c0', L.dclk), ('c1', L.ddclk), ('c2', L.dddclk)):
            g.ensure('clock correction '+nm, val(a[n], f[nm], *UNIT[nm]))
    if x.kind == 'hr':
        g.ensure('high-rate clock correction', val(L.hclk[n], f['h'], 22, 1e-4))
    if x.kind == 'ura':
        c, v = f['cl'], f['va']
        u = L.ura[n]
        p3 = 1
        for k in range(1, 8):
            p3 = Ite(c == k, 3**k, p3)
        g.ensure('accuracy', And(Iff(And(c == 0, v == 0), isnan(u)), Implies(And(c == 7, v == 7), close(u, 5.4665)),
                                 Implies(And(Or(c > 0, v > 0), Or(c < 7, v < 7)), close(u, (p3*(1+v*0.25)-1)*1e-3))))
    if x.kind in ('cb', 'pb'):
        R = resolve('gnss:rSigRnx')
        t = 'C' if x.kind == 'cb' else 'L'
        tb = L.cbias if x.kind == 'cb' else L.pbias
        nm = {c: R(CH[x.sy]+t+SIG[x.sy][c]).str() for c in f['sig']}
        g.ensure('signals of the satellite', set(tb[n]) == set(nm.values()))
        for c in f['sig']:
            g.ensure('bias of the signal', val(tb[n][nm[c]], f['b', c], *((14, 0.01) if t == 'C' else (20, 1e-4))))
            if t == 'L':
                g.ensure('indicators of the signal', And(L.si[n][nm[c]] == f['si', c], L.di[n][nm[c]] == f['di', c], L.wl[n][nm[c]] == f['wl', c]))
        if t == 'L':
            g.ensure('yaw angle and rate', And(close(L.yaw[n], f['yaw']/256.0), val(L.dyaw[n], f['dyaw'], 8, 1/8192.0)))


def pick(sy, k):
    c = sorted(SIG[sy])
    if k == 3:
        return [c, [c[0]], c[-2:]]
    return [[[c[0]]], [[c[-1], c[1]], [], [c[2]]], [[], c[1:3]]][k]


@contract('R03', fns=[M+'ssig2rsig', 'rtcm:rtcmUtil.rsig2code'], n=40)
def signals(g):
    R, T = resolve('gnss:rSigRnx'), resolve('gnss:uTYP')
    sy = SYS[g.choice('sys', list(range(6)))]
    d = resolve('rtcm:rtcm')()
    for k, c in SIG[sy].items():
        for t in 'CL':
            r = R(CH[sy]+t+c)
            g.ensure('signal of the indicator', g.call(M+'ssig2rsig', d, U(sy), getattr(T, t), k) == r)
            if t == 'L':
                g.ensure('indicator of the signal', g.call('rtcm:rtcmUtil.rsig2code', d, r) == k)


@contract('R03', fns=['rtcm:rtcmUtil.get_ssr_sys', 'rtcm:rtcmUtil.svid2sat', 'rtcm:rtcmUtil.sat2svid'], n=40)
def numbers(g):
    d = resolve('rtcm:rtcm')()
    for sy in SYS:
        for mt in list(range(FIRST[sy], FIRST[sy]+6))+[PB[sy]]:
            g.ensure('constellation of the message', g.call('rtcm:rtcmUtil.get_ssr_sys', d, mt) == U(sy))
        for v in SV[sy][2]:
            g.ensure('satellite of the number in the message', And(g.call('rtcm:rtcmUtil.svid2sat', d, U(sy), v) == number(sy, v),
                                                                 g.call('rtcm:rtcmUtil.sat2svid', d, number(sy, v)) == v))


@contract('R03', fns=[M+'decode', M+'decode_igsssr', M+'decode_head', M+'decode_sat', M+'decode_orb_sat', M+'decode_clk_sat', M+'decode_hclk_sat',
                      M+'decode_cssr_orb', M+'decode_cssr_clk', M+'decode_cssr_comb', M+'decode_cssr_hclk', M+'decode_cssr_ura', M+'decode_cssr_cbias',
                      M+'decode_cssr_pbias', 'cssrlib:cssr.quality_idx', 'cssrlib:cssr.sval'], n=500, tmo=150)
def corrections(g):
    sy, kind, igs, ns, sg = cases(g, 90, sy=SYS, kind=KIND, igs=[0, 1], ns=[0, 1, 2], sg=[0, 1, 2])
    check(g, Ssr(g, 'msg', sy, kind, igs, SV[sy][ns], 40321, pick(sy, sg)))


# satellites that fit in a message
FITS = {'orb': 58, 'clk': 63, 'oc': 38, 'hr': 63, 'ura': 63, 'cb': 55, 'pb': 36}


@contract('R03', fns=[M+'decode', M+'decode_igsssr', M+'decode_cssr_orb', M+'decode_cssr_clk', M+'decode_cssr_comb', M+'decode_cssr_hclk', M+'decode_cssr_ura',
                      M+'decode_cssr_cbias', M+'decode_cssr_pbias'], n=100, tmo=150)
def longest(g):
    """messages with every satellite of the constellation, every signal of one of them"""
    sy, kind, igs = cases(g, 14, sy=SYS, kind=KIND, igs=[0, 1]) if not g.symbolic else g.choice('case', [
        ('BDS', 'orb', 1), ('GAL', 'clk', 0), ('GPS', 'oc', 0), ('BDS', 'hr', 1), ('SBS', 'ura', 0), ('GAL', 'cb', 1), ('GPS', 'pb', 0), ('BDS', 'cb', 0), ('QZS', 'pb', 1),
        ('BDS', 'ura', 1), ('GLO', 'orb', 0)])
    check(g, Ssr(g, 'msg', sy, kind, igs, list(range(1, NSAT[sy]+1))[:FITS[kind]], 40321, pick(sy, 3), nb=9500))


def check(g, x):
    d = dec(g)
    sy, kind = x.sy, x.kind
    # what an earlier message left
    d.mi, d.iodssr, d.pid, d.sid, d.datum = True, 7, 300, 5, 1
    for st in ST[kind]:
        d.udi[CT(st)], d.iodssr_c[CT(st)] = 900, 6
    i, obs, eph, geph, seph = x.send(d)
    L = d.lc[0]
    g.ensure('only corrections', And(obs is None, eph is None, geph is None, seph is None))
    g.ensure('end of the message', i == x.end)
    g.ensure('header', And(d.mi == x.mi, d.iodssr == x.iod, d.pid == x.pid, d.sid == x.sid))
    if kind in ('orb', 'oc'):
        g.ensure('datum', d.datum == x.datum)
        g.ensure('satellites', And(d.sat_n == x.sat, d.nsat_n == len(x.sat), d.sys_n == [U(sy)]*len(x.sat)))
    g.ensure('epoch of the message', And(d.time.time == x.time, d.time.sec == 0))
    for st in ST[kind]:
        c = CT(st)
        g.ensure('reception', And(d.udi[c] == x.udi, d.iodssr_c[c] == x.iod, L.cstat & (1 << c) != 0, same_time(L.t0s[c], d.time)))
        for n in x.sat:
            g.ensure('epoch of the satellite', same_time(L.t0[n][c], d.time))
    for nm in TBL[kind]:
        if nm == 'wl' and kind != 'pb':
            continue
        g.ensure('satellites of '+nm, set(getattr(L, nm)) == set(x.sat))
    for k, vs in TBL.items():
        for nm in vs:
            if nm not in TBL[kind]:
                g.ensure('no other corrections', not getattr(L, nm))
    for k, n in enumerate(x.sat):
        if len(x.sat) < 9 or k % 9 == 8 or k in (0, len(x.sat)-1):
            values(g, d, x, n)


@contract('R03', fns=[M+'decode_cssr_orb', M+'decode_cssr_clk', M+'decode_cssr_comb', M+'decode_cssr_cbias', M+'decode_cssr_pbias', M+'decode_cssr_ura', M+'decode_cssr_hclk'],
          n=400, tmo=150)
def epochs(g):
    """messages of one epoch accumulate, a later epoch replaces"""
    sy, sz, ka, kb, late = cases(g, 60, sy=['GPS', 'QZS'], sz=['GAL', 'BDS', 'GPS'], ka=KIND, kb=KIND, late=[0, 1])
    d = dec(g)
    A = Ssr(g, 'a', sy, ka, 1, SV[sy][2][:2], 40321, pick(sy, 0), nb=1000)
    B = Ssr(g, 'b', sz, kb, 1, SV[sz][2][:2], 40326 if late else 40321, pick(sz, 0), nb=1000)
    A.send(d)
    B.send(d)
    L = d.lc[0]
    for nm in TBL[kb]:
        keep = A.sat if nm in TBL[ka] and (not late or nm in ('yaw', 'dyaw')) else []
        g.ensure('satellites of '+nm+' after the second message', set(getattr(L, nm)) == set(keep) | set(B.sat))
    for nm in TBL[ka]:
        if nm not in TBL[kb]:
            g.ensure('corrections of another kind are kept', set(getattr(L, nm)) == set(A.sat))
    for n in B.sat:
        values(g, d, B, n)
    if all((nm not in TBL[kb]) or not late for nm in TBL[ka]):
        for n in A.sat:
            if n not in B.sat or not set(TBL[ka]) & set(TBL[kb]):
                values(g, d, A, n)
    for st in ST[kb]:
        for n in B.sat:
            g.ensure('epoch', L.t0[n][CT(st)].time == B.time)
    for st in ST[ka]:
        for n in A.sat:
            if n in B.sat and st in ST[kb]:
                continue
            g.ensure('epoch of the earlier message', L.t0[n][CT(st)].time == A.time)


@contract('R03', fns=[M+'decode_time'], n=200)
def time_of(g):
    """the epoch can be read without decoding the message"""
    sy, kind, igs = cases(g, 30, sy=SYS, kind=[k for k in KIND if k != 'pb'], igs=[0, 1])
    d = dec(g)
    x = Ssr(g, 'msg', sy, kind, igs, SV[sy][1], g.choice('tow', [40321, 0, 604799]), pick(sy, 0))
    t = g.call(M+'decode_time', d, x.m)
    g.ensure('epoch of the message', And(t.time == x.time, t.sec == 0))


@contract('R03', fns=['rtcm:rtcme.encode', 'rtcm:rtcme.encode_head', 'rtcm:rtcme.encode_sat', 'rtcm:rtcme.encode_orb_sat', 'rtcm:rtcme.encode_clk_sat',
                      'rtcm:rtcme.encode_cssr_orb', 'rtcm:rtcme.encode_cssr_clk', 'rtcm:rtcme.encode_cssr_ura', 'rtcm:rtcme.encode_cssr_cbias', 'rtcm:rtcme.ival',
                      'cssrlib:cssre.quality2qi'], n=400, tmo=150)
def encode(g):
    """what the encoder writes is what the decoder reads"""
    sy, kind, ns, sg, bad = cases(g, 40, sy=list(TST), kind=['orb', 'clk', 'cb', 'ura'], ns=[0, 1, 2, 3], sg=[0, 1, 2], bad=[0, 1])
    if kind not in TST[sy]:
        return
    R = resolve('gnss:rSigRnx')
    e = resolve('rtcm:rtcme')()
    e.monlevel = 0
    e.lc = [resolve('cssrlib:local_corr')()]
    e.udi = list(e.udi)
    e.msgtype = TST[sy][kind]
    e.tow = int(TOD) if sy == 'GLO' else 40321
    e.iodssr, e.pid, e.sid, e.mi, e.datum = g.int('iod', 0, 15), g.int('pid', 0, 65535), g.int('sid', 0, 15), 0, g.int('datum', 0, 1)
    svs = SV[sy][ns] if ns < 3 else list(range(1, NSAT[sy]+1))
    sl = [number(sy, v) for v in svs]
    g.lift(e, 2)
    for st in ST[kind]:
        e.udi[CT(st)] = g.int('udi', 0, 15)
    other = number('GPS' if sy != 'GPS' else 'GAL', 7)    # a satellite of another constellation is not in the message
    al = sl[:1]+[other]+sl[1:]
    e.sat_n = list(al)
    Le = e.lc[0]
    raw = {}

    def q(nm, w, sc, lost=False):
        lim = (1 << (w-1))-1
        v = raw[nm] = g.int(nm, -lim, lim)
        return float('nan') if lost else v*sc
    NAN = float('nan')
    if kind == 'orb':
        Le.iode, Le.dorb, Le.ddorb = {}, {}, {}
        for n in al:
            Le.iode[n] = raw['i%d' % n] = g.int('i%d' % n, 0, 255)
            Le.dorb[n] = [q('d%d_%d' % (k, n), *UNIT['d%d' % k], bad and k == 1) for k in range(3)]
            Le.ddorb[n] = [q('v%d_%d' % (k, n), *UNIT['v%d' % k], bad and k == 2) for k in range(3)]
    if kind == 'clk':
        Le.dclk, Le.ddclk, Le.dddclk = {}, {}, {}
        for n in al:
            for k, a in enumerate((Le.dclk, Le.ddclk, Le.dddclk)):
                a[n] = q('c%d_%d' % (k, n), *UNIT['c%d' % k], bad and k == 0)
    if kind == 'ura':
        Le.ura = {}
        o = g.choice('class', [0, 1, 2])
        for k, n in enumerate(al):
            c, v = [0, 3, 7][(k+o) % 3], [1, 6, 2, 7][(k+o) % 4]
            v = v if (c, v) != (7, 7) else 3    # open class
            raw['u%d' % n] = NAN if bad else 3**c*(1+v*0.25)*1e-3-1e-3
            Le.ura[n] = raw['u%d' % n]
    if kind == 'cb':
        ss = pick(sy, sg)
        names = {n: ([R(CH[sy]+'C'+SIG[sy][c]) for c in ss[k % len(ss)]] if n != other else []) for k, n in enumerate(al)}
        for n in al:
            Le.cbias[n] = {r: q('b%d_%s' % (n, r.str()), 14, 0.01, bad) for r in names[n]}
    m = g.zbuf('out', 1400 if ns < 3 else 9500)
    i = g.call('rtcm:rtcme.encode', e, m)
    d = dec(g)
    j = g.call(M+'decode', d, m)[0]
    L = d.lc[0]
    g.ensure('same length', i == j)
    c = CT(ST[kind][0])
    g.ensure('header', And(d.iodssr == e.iodssr, d.pid == e.pid, d.sid == e.sid, d.udi[c] == e.udi[c]))
    for nm in TBL[kind]:
        g.ensure('satellites', set(getattr(L, nm)) == set(sl))

    def same(nm, got, w, sc, lost=False):
        g.ensure('value', isnan(got) if lost else And(Not(isnan(got)), close(got/sc, raw[nm])))
    for n in sl:
        if kind == 'orb':
            g.ensure('issue', L.iode[n] == raw['i%d' % n])
            for k in range(3):
                same('d%d_%d' % (k, n), L.dorb[n][k], *UNIT['d%d' % k], bad and k == 1)
                same('v%d_%d' % (k, n), L.ddorb[n][k], *UNIT['v%d' % k], bad and k == 2)
        if kind == 'clk':
            for k, a in enumerate((L.dclk, L.ddclk, L.dddclk)):
                same('c%d_%d' % (k, n), a[n], *UNIT['c%d' % k], bad and k == 0)
        if kind == 'ura':
            g.ensure('accuracy', isnan(L.ura[n]) if bad else close(L.ura[n], raw['u%d' % n]))
        if kind == 'cb':
            g.ensure('signals', set(L.cbias[n]) == {r.str() for r in names[n]})
            for r in names[n]:
                same('b%d_%s' % (n, r.str()), L.cbias[n][r.str()], 14, 0.01, bad)


@contract('R03', fns=[M+'decode_vtec'], n=200)
def vtec(g):
    d = dec(g)
    m = g.zbuf('msg', 21000)
    g.setfield(m, 24, 12, 4076)
    g.setfield(m, 39, 8, 201)
    g.setfield(m, 47, 20, 40321)
    nl = g.choice('layers', [1, 2, 4])
    g.setfield(m, 105, 2, nl-1)
    i = 107
    for k in range(nl):
        n, o = [(2, 2), (3, 1), (16, 16), (14, 13)][g.choice('deg%d' % k, [0, 1, 2, 3]) if not g.symbolic or nl < 4 else (2, 0, 3, 2)[k]]
        g.setfield(m, i+8, 4, n-1)
        g.setfield(m, i+12, 4, o-1)
        i += 16+16*(sum(n+1-j for j in range(o+1))+sum(n+1-j for j in range(1, o+1)))
    end = g.call(M+'decode', d, m)[0]
    g.ensure('end of the message', end == i)
    g.ensure('reception', d.lc[0].cstat & (1 << CT('VTEC')) != 0)
