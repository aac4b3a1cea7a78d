"""R04 RTCM ephemerides and station messages: every field at its place in its unit."""
import math
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U
from .f_common import cases

M = 'rtcm:rtcm.'
SC = math.pi
P2 = lambda k: 2.0**-k
TOWS = (0, 300, 43200, 86399, 302400, 604799)

# (name, bits, signed: s two's complement, u unsigned, m sign-magnitude, unit); name None: not used
GPS = [('prn', 6, 'u', 1), ('week', 10, 'u', 1), ('sva', 4, 'u', 1), ('code', 2, 'u', 1), ('idot', 14, 's', P2(43)*SC), ('iode', 8, 'u', 1),
       ('toc', 16, 'u', 16), ('af2', 8, 's', P2(55)), ('af1', 16, 's', P2(43)), ('af0', 22, 's', P2(31)), ('iodc', 10, 'u', 1),
       ('crs', 16, 's', P2(5)), ('deln', 16, 's', P2(43)*SC), ('M0', 32, 's', P2(31)*SC), ('cuc', 16, 's', P2(29)), ('e', 32, 'u', P2(33)),
       ('cus', 16, 's', P2(29)), ('sqrtA', 32, 'u', P2(19)), ('toes', 16, 'u', 16), ('cic', 16, 's', P2(29)), ('OMG0', 32, 's', P2(31)*SC),
       ('cis', 16, 's', P2(29)), ('i0', 32, 's', P2(31)*SC), ('crc', 16, 's', P2(5)), ('omg', 32, 's', P2(31)*SC), ('OMGd', 24, 's', P2(43)*SC),
       ('tgd', 8, 's', P2(31)), ('svh', 6, 'u', 1), ('flag', 1, 'u', 1), ('fit', 1, 'u', 1)]
QZS = [('prn', 4, 'u', 1), ('toc', 16, 'u', 16), ('af2', 8, 's', P2(55)), ('af1', 16, 's', P2(43)), ('af0', 22, 's', P2(31)), ('iode', 8, 'u', 1),
       ('crs', 16, 's', P2(5)), ('deln', 16, 's', P2(43)*SC), ('M0', 32, 's', P2(31)*SC), ('cuc', 16, 's', P2(29)), ('e', 32, 'u', P2(33)),
       ('cus', 16, 's', P2(29)), ('sqrtA', 32, 'u', P2(19)), ('toes', 16, 'u', 16), ('cic', 16, 's', P2(29)), ('OMG0', 32, 's', P2(31)*SC),
       ('cis', 16, 's', P2(29)), ('i0', 32, 's', P2(31)*SC), ('crc', 16, 's', P2(5)), ('omg', 32, 's', P2(31)*SC), ('OMGd', 24, 's', P2(43)*SC),
       ('idot', 14, 's', P2(43)*SC), ('code', 2, 'u', 1), ('week', 10, 'u', 1), ('sva', 4, 'u', 1), ('svh', 6, 'u', 1), ('tgd', 8, 's', P2(31)),
       ('iodc', 10, 'u', 1), ('fit', 1, 'u', 1)]
GALC = [('prn', 6, 'u', 1), ('week', 12, 'u', 1), ('iode', 10, 'u', 1), ('sva', 8, 'u', 1), ('idot', 14, 's', P2(43)*SC), ('toc', 14, 'u', 60),
        ('af2', 6, 's', P2(59)), ('af1', 21, 's', P2(46)), ('af0', 31, 's', P2(34)), ('crs', 16, 's', P2(5)), ('deln', 16, 's', P2(43)*SC),
        ('M0', 32, 's', P2(31)*SC), ('cuc', 16, 's', P2(29)), ('e', 32, 'u', P2(33)), ('cus', 16, 's', P2(29)), ('sqrtA', 32, 'u', P2(19)),
        ('toes', 14, 'u', 60), ('cic', 16, 's', P2(29)), ('OMG0', 32, 's', P2(31)*SC), ('cis', 16, 's', P2(29)), ('i0', 32, 's', P2(31)*SC),
        ('crc', 16, 's', P2(5)), ('omg', 32, 's', P2(31)*SC), ('OMGd', 24, 's', P2(43)*SC), ('tgd', 10, 's', P2(32))]
FNAV = GALC+[('hs', 2, 'u', 1), ('dvs', 1, 'u', 1)]
INAV = GALC+[('tgd_b', 10, 's', P2(32)), ('hs', 2, 'u', 1), ('dvs', 1, 'u', 1), ('hs1', 2, 'u', 1), ('dvs1', 1, 'u', 1)]
BDS = [('prn', 6, 'u', 1), ('week', 13, 'u', 1), ('sva', 4, 'u', 1), ('idot', 14, 's', P2(43)*SC), ('iode', 5, 'u', 1), ('toc', 17, 'u', 8),
       ('af2', 11, 's', P2(66)), ('af1', 22, 's', P2(50)), ('af0', 24, 's', P2(33)), ('iodc', 5, 'u', 1), ('crs', 18, 's', P2(6)),
       ('deln', 16, 's', P2(43)*SC), ('M0', 32, 's', P2(31)*SC), ('cuc', 18, 's', P2(31)), ('e', 32, 'u', P2(33)), ('cus', 18, 's', P2(31)),
       ('sqrtA', 32, 'u', P2(19)), ('toes', 17, 'u', 8), ('cic', 18, 's', P2(31)), ('OMG0', 32, 's', P2(31)*SC), ('cis', 18, 's', P2(31)),
       ('i0', 32, 's', P2(31)*SC), ('crc', 18, 's', P2(6)), ('omg', 32, 's', P2(31)*SC), ('OMGd', 24, 's', P2(43)*SC), ('tgd', 10, 's', 1e-10),
       ('tgd_b', 10, 's', 1e-10), ('svh', 1, 'u', 1)]
IRN = [('prn', 6, 'u', 1), ('week', 10, 'u', 1), ('af0', 22, 's', P2(31)), ('af1', 16, 's', P2(43)), ('af2', 8, 's', P2(55)), ('sva', 4, 'u', 1),
       ('toc', 16, 'u', 16), ('tgd', 8, 's', P2(31)), ('deln', 22, 's', P2(41)*SC), ('iode', 8, 'u', 1), (None, 10, 'u', 1), ('svh', 2, 'u', 1),
       ('cuc', 15, 's', P2(28)), ('cus', 15, 's', P2(28)), ('cic', 15, 's', P2(28)), ('cis', 15, 's', P2(28)), ('crc', 15, 's', 0.0625),
       ('crs', 15, 's', 0.0625), ('idot', 14, 's', P2(43)*SC), ('M0', 32, 's', P2(31)*SC), ('toes', 16, 'u', 16), ('e', 32, 'u', P2(33)),
       ('sqrtA', 32, 'u', P2(19)), ('OMG0', 32, 's', P2(31)*SC), ('omg', 32, 's', P2(31)*SC), ('OMGd', 22, 's', P2(41)*SC), ('i0', 32, 's', P2(31)*SC)]
KEP = [('GPS', 1019, GPS), ('QZS', 1044, QZS), ('GAL', 1045, FNAV), ('GAL', 1046, INAV), ('BDS', 1042, BDS), ('IRN', 1041, IRN)]
PRN = {'GPS': (1, 32, 32), 'QZS': (1, 4, 7), 'GAL': (1, 36, 36), 'BDS': (1, 37, 60), 'IRN': (1, 7, 14), 'GLO': (1, 24, 24), 'SBS': (1, 39, 39)}


def dec(g, tows=TOWS):
    """RTCM decoder with an approximate current time"""
    d = resolve('rtcm:rtcm')()
    d.monlevel = 0
    g.lift(d, 2)
    d.week = 2300
    d.time = g.call('gnss:gpst2time', 2300, g.choice('tow', tows))
    return d


def message(g, mt, n=1024):
    msg = g.buf('msg', n)
    g.setfield(msg, 24, 12, mt)
    return msg


def raw(g, msg, i, w, kind):
    if kind == 'm':
        mag = g.field(msg, i+1, w-1)
        return Ite(g.field(msg, i, 1) == 1, -mag, mag)
    return g.field(msg, i, w, kind == 's')


def walk(g, msg, lay, i=36):
    out = {}
    for nm, w, kind, q in lay:
        if nm:
            out[nm] = (raw(g, msg, i, w, kind), q, i, w)
        i += w
    return out


def near(t, ref, period):
    """instant within half a period of the reference"""
    return And(t.time-ref.time <= period//2, t.time-ref.time >= -(period//2))


@contract('R04', fns=[M+'decode', M+'decode_gps_eph', M+'decode_qzs_eph', M+'decode_gal_eph', M+'decode_bds_eph', M+'decode_irn_eph',
                      'rtcm:rtcmUtil.adjustweek'], n=300, tmo=100)
def keplerian(g):
    sy, mt, lay = KEP[g.choice('kind', list(range(6)))]
    d = dec(g)
    msg = message(g, mt, 640)
    prn = PRN[sy][g.choice('sv', [0, 1, 2])]
    g.setfield(msg, 36, lay[0][1], prn)
    f = walk(g, msg, lay)
    t0 = d.time
    i, obs, eph, geph, seph = g.call(M+'decode', d, msg)
    g.ensure('only an ephemeris', And(obs is None, geph is None, seph is None))
    g.ensure('satellite', eph.sat == resolve('gnss:prn2sat')(U(sy), prn+(192 if sy == 'QZS' else 0)))
    for nm, (r, q, _, w) in f.items():
        if nm in ('prn', 'week', 'toc', 'sqrtA', 'hs', 'dvs', 'hs1', 'dvs1'):
            continue
        got = getattr(eph, nm)
        g.ensure(nm, got == r if q == 1 else close(got/q, r))
    s = f['sqrtA']
    g.ensure('semi-major axis', close(eph.A/s[1]/s[1], s[0]*s[0]))
    wk, per = f['week'][0], 1 << f['week'][3]
    if sy == 'BDS':
        org, per = 1136073600+14, None
        g.ensure('week', eph.week == wk)
    else:
        org = 315964800
        if sy == 'GAL':     # Galileo week 0 is GPS week 1024; only the low bits identify the week here
            per = 1024
        g.ensure('week of the transmitted number nearest to the present', And(eph.week >= 2300-512, eph.week <= 2300+512, (eph.week-wk) % per == 0))
    for nm, src in (('toe', 'toes'), ('toc', 'toc')):
        t = getattr(eph, nm)
        g.ensure(nm, And(t.time == org+604800*eph.week+f[src][0]*f[src][1], t.sec == 0))
    g.ensure('time of reception', And(eph.tot.time == t0.time, eph.tot.sec == t0.sec))
    if sy == 'GAL':
        if mt == 1045:
            g.ensure('health of E5a', eph.svh == f['hs'][0]*16+f['dvs'][0]*8)
            g.ensure('F/NAV data', And(eph.code == 258, eph.mode == 1))
        else:
            g.ensure('health of E5b and E1', eph.svh == f['hs'][0]*128+f['dvs'][0]*64+f['hs1'][0]*2+f['dvs1'][0])
            g.ensure('I/NAV data', And(eph.code == 517, eph.mode == 0))
        g.ensure('issue', eph.iodc == eph.iode)


GLO = [('prn', 6, 'u', 1), ('frq', 5, 'u', 1), ('cn', 1, 'u', 1), ('cnh', 1, 'u', 1), ('P1', 2, 'u', 1), ('tkh', 5, 'u', 1), ('tkm', 6, 'u', 1),
       ('tks', 1, 'u', 1), ('bn', 1, 'u', 1), ('P2', 1, 'u', 1), ('tb', 7, 'u', 1)]
for _k in 'xyz':
    GLO += [('v'+_k, 24, 'm', P2(20)*1e3), ('p'+_k, 27, 'm', P2(11)*1e3), ('a'+_k, 5, 'm', P2(30)*1e3)]
GLO += [('P3', 1, 'u', 1), ('gamn', 11, 'm', P2(40)), ('P', 2, 'u', 1), ('ln3', 1, 'u', 1), ('taun', 22, 'm', P2(30)), ('dtaun', 5, 'm', P2(30)),
        ('age', 5, 'u', 1), ('P4', 1, 'u', 1), ('Ft', 4, 'u', 1), ('Nt', 11, 'u', 1), ('M', 2, 'u', 1)]


@contract('R04', fns=[M+'decode_glo_eph', M+'unpack_sm'], n=300, tmo=100)
def glonass(g):
    # near midnight Moscow time, mid-day, and at the week end (GPS time of day)
    d = dec(g, (75618, 75600, 75700, 32400, 604799, 5, 80000))
    msg = message(g, 1020, 480)
    prn = PRN['GLO'][g.choice('sv', [0, 1])]
    g.setfield(msg, 36, 6, prn)
    f = walk(g, msg, GLO)
    v = lambda nm: f[nm][0]
    g.assume(And(v('tkh') < 24, v('tkm') < 60, v('tb') >= 1, v('tb') <= 95, v('frq') <= 13))
    i, obs, eph, geph, seph = g.call(M+'decode', d, msg)
    g.ensure('only a GLONASS ephemeris', And(obs is None, eph is None, seph is None))
    g.ensure('satellite and channel', And(geph.sat == resolve('gnss:prn2sat')(U('GLO'), prn), geph.frq == v('frq')-7))
    for j, k in enumerate('xyz'):
        for nm, a in (('v', geph.vel), ('p', geph.pos), ('a', geph.acc)):
            r, q = f[nm+k][:2]
            g.ensure('component '+nm+k, close(a[j]/q, r))
    for nm in ('gamn', 'taun', 'dtaun', 'age'):
        g.ensure(nm, close(getattr(geph, nm)/f[nm][1], f[nm][0]))
    g.ensure('health and issue', And(geph.svh == v('bn'), geph.iode == v('tb')))
    g.ensure('data validity', geph.status == v('M')*128+v('P4')*64+v('P3')*32+v('P2')*16+v('P1')*4+v('P'))
    # UTC of the tagged time of day (Moscow), leap seconds of 2024
    for nm, tod in (('toe', v('tb')*900), ('tof', v('tkh')*3600+v('tkm')*60+v('tks')*30)):
        t = getattr(geph, nm)
        g.ensure(nm+' is the transmitted Moscow time of day', And(t.sec == 0, (t.time-18+10800-tod) % 86400 == 0))
        g.ensure(nm+' on the day nearest to the present', And(t.time-d.time.time <= 43200+18, t.time-d.time.time >= -43200-18))


SBSL = [('prn', 6, 'u', 1), ('iodn', 8, 'u', 1), ('t0', 13, 'u', 16), ('ura', 4, 'u', 1), ('px', 30, 's', 0.08), ('py', 30, 's', 0.08), ('pz', 25, 's', 0.4),
        ('vx', 17, 's', 0.000625), ('vy', 17, 's', 0.000625), ('vz', 18, 's', 0.004), ('ax', 10, 's', 0.0000125), ('ay', 10, 's', 0.0000125),
        ('az', 10, 's', 0.0000625), ('af0', 12, 's', P2(31)), ('af1', 8, 's', P2(40))]


@contract('R04', fns=[M+'decode_sbs_eph'], n=300, tmo=100)
def sbas(g):
    d = dec(g)
    msg = message(g, 1043, 320)
    prn = PRN['SBS'][g.choice('sv', [0, 1])]
    g.setfield(msg, 36, 6, prn)
    f = walk(g, msg, SBSL)
    g.assume(f['t0'][0] < 5400)
    i, obs, eph, geph, seph = g.call(M+'decode', d, msg)
    g.ensure('satellite and issue', And(seph.sat == resolve('gnss:prn2sat')(U('SBS'), prn+119), seph.iodn == f['iodn'][0]))
    for j, k in enumerate('xyz'):
        for nm, a in (('v', seph.vel), ('p', seph.pos), ('a', seph.acc)):
            r, q = f[nm+k][:2]
            g.ensure('component '+nm+k, close(a[j]/q, r))
    g.ensure('clock', And(close(seph.af0/P2(31), f['af0'][0]), close(seph.af1/P2(40), f['af1'][0])))
    g.ensure('reference time of day nearest to the present', And(seph.t0.sec == 0, (seph.t0.time-315964800-16*f['t0'][0]) % 86400 == 0, near(seph.t0, d.time, 86400)))


@contract('R04', fns=[M+'decode_sta_pos', M+'decode_glo_bias'], n=200)
def station(g):
    d = dec(g, (40000,))
    mt = g.choice('mt', [1005, 1006, 1032, 1230])
    scan = g.choice('scan', [0, 1])
    msg = message(g, mt, 256)
    if mt == 1230:
        mask = g.choice('mask', list(range(16)))
        g.setfield(msg, 52, 4, mask)
    g.call(M+'decode', d, msg, None, bool(scan))
    if mt == 1230:
        g.ensure('station', d.refid == g.field(msg, 36, 12))
        i = 56
        for k in range(4):
            if mask >> (3-k) & 1:
                g.ensure('code-phase bias of the signal', close(d.glo_bias[k], g.field(msg, i, 16, True)*0.02, 1e-12))
                i += 16
            else:
                g.ensure('no bias', d.glo_bias[k] == 0)
        return
    i = 36+(12 if mt == 1032 else 0)
    g.ensure('station', d.refid == g.field(msg, i, 12))
    pos = [i+18, i+56, i+94] if mt == 1032 else [i+22, i+62, i+102]
    for k in range(3):
        g.ensure('antenna position', close(d.pos_arp[k], g.field(msg, pos[k], 38, True)*1e-4, 1e-9))
    if mt == 1006:
        g.ensure('antenna height', close(d.ant_height, g.field(msg, 176, 16)*1e-4, 1e-9))


@contract('R04', fns=[M+'decode_ant_desc'], n=200)
def antenna(g):
    d = dec(g, (40000,))
    mt = g.choice('mt', [1007, 1008, 1033])
    rnd = g.choice('len', [0, 1, 2])
    n = {1007: 1, 1008: 2, 1033: 5}[mt]
    texts = [['TRM59800.00     NONE', '', 'A', 'x'*31, '12'][k] if rnd == 0 else ['JAVRINGANT_DM', '00119', 'JAVAD TRE_3', '4.1', 'q7'][k] if rnd == 1 else '' for k in range(5)][:n]
    msg = message(g, mt, 1024)
    i = 48
    vals = []
    for k, t in enumerate(texts):
        g.setfield(msg, i, 8, len(t))
        i += 8
        for c in t:
            g.setfield(msg, i, 8, ord(c))
            i += 8
        if k == 0:
            vals.append(i)
            i += 8
    g.call(M+"decode", d, msg)
    g.ensure('station', d.refid == g.field(msg, 36, 12))
    g.ensure('set-up number', d.ant_id == g.field(msg, vals[0], 8))
    got = [d.ant_desc, d.ant_serial, d.rcv_type, d.firm_ver, d.rcv_serial][:n]
    g.ensure('texts', got == texts)
