"""V02 DFMC SBAS messages (L5): mask, corrections, integrity, ephemeris, almanac."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases
from .V01_sbas import val, near, cov_is, pow2

M = 'sbas:sbasDec.'
CL = 299792458.0
PI = 3.1415926535897932
SLOTS = {1: ('GPS', 1), 32: ('GPS', 32), 38: ('GLO', 1), 61: ('GLO', 24), 75: ('GAL', 1), 110: ('GAL', 36), 120: ('SBS', 120), 158: ('SBS', 158), 159: ('BDS', 1), 195: ('BDS', 37)}


def dec(g, tows=(40000,), n=0):
    d = resolve('sbas:sbasDec')(None, 2)
    d.monlevel = 0
    g.lift(d, 2)
    d.week = 2300
    d.time = g.call('gnss:gpst2time', 2300, g.choice('tow', tows))
    if n:
        p2s = resolve('gnss:prn2sat')
        d.sat_n = [p2s(U('GPS'), k+1) for k in range(min(n, 32))]+[p2s(U('GAL'), k+1) for k in range(min(n-32, 36))]+[p2s(U('BDS'), k+1) for k in range(min(n-68, 37))]
        d.nsat = n
        d.iodm = d.iodssr = g.int('iodm', 0, 3)
    return d


def message(g, mt):
    msg = g.buf('msg', 250)
    g.setfield(msg, 4, 6, mt)
    return msg


def send(g, d, msg, prn=0):
    return g.call(M+'decode_cssr', d, msg, 0, 1, prn)


@contract('V02', fns=[M+'slot2sat'], n=300)
def slots(g):
    d = dec(g)
    s = g.int('slot', 0, 255)
    got = g.call(M+'slot2sat', d, s)
    p2s = lambda c, p: g.call('gnss:prn2sat', U(c), p)
    for c, lo, hi, o in (('GPS', 1, 32, 0), ('GLO', 38, 61, 37), ('GAL', 75, 110, 74), ('SBS', 120, 158, 0), ('BDS', 159, 195, 158)):
        if bool(And(s >= lo, s <= hi)):
            g.ensure('satellite of the slot', got == p2s(c, s-o))
    g.ensure('unused slots', Implies(Or(s == 0, And(s > 69, s < 75), And(s > 110, s < 120), s == 196, s > 205, And(s > 32, s < 38)), got == 0))


# first slot of each part of the mask, its place, and the satellites it names
PARTS = (('GPS', 1, 32, 1), ('GLO', 38, 61, 1), ('GAL', 75, 110, 1), ('SBS', 120, 158, 120), ('BDS', 159, 195, 1))


@contract('V02', fns=['sbas:sbasDec.decode_cssr', M+'decode_dfmc_mask', 'cssrlib:cssr.decode_mask'], n=500, tmo=100)
def mask(g):
    d = dec(g)
    w = g.choice('win', [1, 29, 38, 56, 75, 105, 120, 154, 159, 190])
    msg = message(g, 31)
    fill = g.choice('fill', [0, 1, 2])
    n = 2 if fill else 5
    out = lambda k: int((fill == 1 or fill == 2 and k % 2) and any(lo <= k <= hi for c, lo, hi, p in PARTS))
    for k in range(1, 215):
        if not w <= k < w+n:
            g.setfield(msg, 10+k-1, 1, out(k))
    send(g, d, msg)
    p2s = resolve('gnss:prn2sat')
    want = []
    for c, lo, hi, p in PARTS:
        for s in range(lo, hi+1):
            if bool(g.field(msg, 10+s-1, 1) == 1) if w <= s < w+n else out(s):
                want.append(p2s(U(c), s-lo+p))
    # slots 197-205 are experimental
    if w+5 < 196:
        g.ensure('satellites of the mask in slot order', And(d.sat_n == want, d.nsat == len(want)))
    g.ensure('issue of the mask', And(d.iodm == g.field(msg, 10+214, 2), d.iodssr == d.iodm))


FLD = (('dorb', 0, 11, -0.0625), ('dorb', 1, 11, -0.0625), ('dorb', 2, 11, -0.0625), ('dclk', None, 12, 0.03125), ('dvel', 0, 8, -2.0**-11), ('dvel', 1, 8, -2.0**-11),
       ('dvel', 2, 8, -2.0**-11), ('ddft', None, 9, 2.0**-12))


@contract('V02', fns=[M+'decode_cssr_orb', M+'add_dfmc_corr', M+'decode_cov'], n=500, tmo=60)
def correction(g):
    sl, had, e, tow = cases(g, 24, sl=list(SLOTS)+[0, 35, 72, 115, 215], had=[0, 1], e=[0, 3, 5, 7], tow=[40000, 0, 604799])
    d = dec(g, (tow,))
    L = d.lc[0]
    msg = message(g, 32)
    g.setfield(msg, 10, 8, sl)
    o = 10+18+45+33
    t0 = g.field(msg, o, 13)
    g.assume(t0 < 5400)
    g.setfield(msg, o+13, 3, e)
    want = resolve('gnss:prn2sat')(U(SLOTS[sl][0]), SLOTS[sl][1]) if sl in SLOTS else 0
    if had and want:
        d.sat_n = [want]
        L.iode[want], L.dclk[want] = 5, 1.0
    send(g, d, msg)
    if not want:
        g.ensure('undefined slot ignored', And(d.sat_n == [], len(L.iode) == 0, len(L.dorb) == 0, len(d.obad.cov) == 0, len(L.t0) == 0))
        return
    g.ensure('listed once', And(d.sat_n == [want], L.iode[want] == g.field(msg, 18, 10)))
    i = 28
    for nm, k, w, q in FLD:
        v = getattr(L, nm)[want]
        g.ensure('correction '+nm, val(g, msg, i, w, q, v if k is None else v[k]))
        i += w
    for t in ('CLOCK', 'ORBIT'):
        g.ensure('time of the correction', near(g, d, L.t0[want][CT(t)], 16*t0, 86400))
    ee, el = cov_is(g, msg, o+13, None, None)
    q = pow2(ee)
    g.ensure('scale', d.obad.scl[want] == q)
    for a, b, v in el:
        g.ensure('covariance element', close(d.obad.cov[want][a][b], v*q*q, 1e-9))
    g.ensure('integrity', And(d.obad.dfrei[want] == g.field(msg, o+13+99, 4), close(d.obad.dRcorr[want], g.field(msg, o+13+103, 4)/15.0, 1e-9)))
    g.ensure('corrections available', And(L.cstat & (1 << CT('ORBIT')) != 0, L.cstat & (1 << CT('CLOCK')) != 0, d.iodssr_c[CT('ORBIT')] == d.iodssr,
                                          d.iodssr_c[CT('CLOCK')] == d.iodssr))


def iodm_case(g, d, msg, same=None):
    same = g.choice('same', [1, 0]) if same is None else same
    f = g.field(msg, 10+214, 2)
    g.assume((f == d.iodm) if same else (f != d.iodm))
    return same


@contract('V02', fns=[M+'decode_dfmc_integrity_mt34'], n=500, tmo=120)
def integrity_changes(g):
    """MT34: unchanged, new value of the list, one step up, do not use"""
    (n, w), same, known = cases(g, 10, nw=[(1, 0), (3, 0), (40, 1), (40, 37), (92, 89), (100, 88)], same=[1, 1, 1, 0], known=[1, 0])
    d = dec(g, n=n)
    msg = message(g, 34)
    same = iodm_case(g, d, msg, same)
    near_ = range(w, min(w+(3 if n < 90 else 2), n, 92))
    for k in range(92):
        if k not in near_:
            # the satellites elsewhere in the mask: a fixed pattern
            g.setfield(msg, 10+2*k, 2, (0, 3, 0, 2)[k % 4] if k < w else 0)
    old = {}
    for k in range(min(n, 92)):
        if known or k % 3 == 0:
            old[d.sat_n[k]] = g.int('old%d' % k, 0, 15) if k in near_ else k % 16
    d.obad.dfrei = dict(old)
    send(g, d, msg)
    D = d.obad.dfrei
    if not same:
        g.ensure('another mask: ignored', D == old if isinstance(D == old, bool) else And([D[s] == old[s] for s in old], len(D) == len(old)))
        return
    new = 0
    for k in range(n):
        s = d.sat_n[k]
        c = g.field(msg, 10+2*k, 2) if k < 92 else 0
        if bool(c == 1):
            g.ensure('new value', s in D)
            if s in D:
                g.ensure('new value of the list', D[s] == g.field(msg, 10+184+4*new, 4))
            new += 1
        elif bool(c == 2):
            if s in old:
                g.ensure('one step up, at most 14', D[s] == Ite(old[s] < 14, old[s]+1, old[s]))
        elif bool(c == 3):
            g.ensure('do not use', D[s] == 15 if s in D else False)
        else:
            g.ensure('unchanged', And((s in D) == (s in old), D[s] == old[s] if s in old and s in D else True))


@contract('V02', fns=[M+'decode_dfmc_integrity_mt35', M+'decode_dfmc_integrity_mt36'], n=500, tmo=60)
def integrity_list(g):
    n = g.choice('n', [0, 1, 53, 54, 80, 92, 100])
    d = dec(g, n=n or 1)
    if n == 0:
        d.sat_n, d.nsat = [], 0
    mt = g.choice('mt', [35, 36])
    msg = message(g, mt)
    same = iodm_case(g, d, msg)
    old = {}
    if g.choice('earlier message', [1, 0]):
        old = {d.sat_n[k]: 4 for k in (0, 5, 53, 60, 79) if k < n}
        d.obad.dfrei = dict(old)
    send(g, d, msg)
    lo, hi = (0, 53) if mt == 35 else (53, 92)
    ks = range(lo, min(hi, n)) if same else []
    g.ensure('satellites', set(d.obad.dfrei) == {d.sat_n[k] for k in ks} | set(old))
    for s in old:
        if s not in [d.sat_n[k] for k in ks]:
            g.ensure('satellites of the other message are kept', d.obad.dfrei[s] == 4)
    for k in ks:
        g.ensure('indicator', d.obad.dfrei[d.sat_n[k]] == g.field(msg, 10+4*(k-lo), 4))


@contract('V02', fns=[M+'decode_dfmc_obad'], n=300, tmo=60)
def degradation(g):
    d = dec(g)
    if g.choice('earlier message', [1, 0]):
        o = d.obad
        o.dt_mt32, o.dt_mt39, o.Cer, o.Ccov, o.tid = 12.0, 18.0, 1.5, 0.3, 5
        for k in range(15):
            o.dfrei_tbl[k] = 9.5
        for t in (o.Icorr, o.Ccorr, o.Rcorr):
            t[U('GPS')] = t[U('SBS')] = 77.0
    msg = message(g, 37)
    send(g, d, msg)
    f = lambda i, w: g.field(msg, 10+i, w)
    b = d.obad
    g.ensure('general', And(b.dt_mt32 == 6*f(0, 6), b.dt_mt39 == 6*f(6, 6), close(b.Cer, 0.5*f(12, 6), 1e-9), close(b.Ccov, 0.1*f(18, 7), 1e-9)))
    for k, c in enumerate(('GPS', 'GLO', 'GAL', 'BDS', 'SBS')):
        o = 25+21*k
        g.ensure('of the constellation', And(b.Icorr[U(c)] == 6*f(o, 5), close(b.Ccorr[U(c)], 0.01*f(o+5, 8), 1e-9), close(b.Rcorr[U(c)], 0.2*f(o+13, 8), 1e-9)))
    for k, q in enumerate((.0625, .125, .125, .125, .125, .25, .25, .25, .25, .25, .5, .5, 1, 3, 6)):
        g.ensure('DFRE of the indicator', close(b.dfrei_tbl[k], q*f(25+126+4*k, 4), 1e-9))
    g.ensure('time reference', b.tid == f(25+126+60, 3))


@contract('V02', fns=[M+'decode_dfmc_eph_mt39', M+'decode_dfmc_eph_mt40'], n=400, tmo=60)
def sbas_ephemeris(g):
    d = dec(g, (0, 40000, 604799))
    m1, m2 = g.buf('m1', 250), g.buf('m2', 250)
    g.setfield(m1, 4, 6, 39)
    g.setfield(m2, 4, 6, 40)
    sl = g.choice('slot', [1, 8, 39])
    g.setfield(m1, 10, 6, sl)
    g.setfield(m2, 10+2+107, 3, g.choice('e', [0, 5, 7]))
    te = g.field(m2, 10+2+94, 13)
    g.assume(te < 5400)
    same = g.choice('same', [1, 0])
    a, b = g.field(m1, 16, 2), g.field(m2, 10, 2)
    g.assume((a == b) if same else (a != b))
    send(g, d, m1)
    e = d.Eph
    g.ensure('satellite', e.sat == g.call('gnss:prn2sat', U('SBS'), sl+119))
    i = 23
    for nm, w, q in (('cuc', 19, PI*2.0**-19*1e-4), ('cus', 19, PI*2.0**-19*1e-4), ('idot', 22, 7/6*PI*2.0**-21*1e-6), ('omg', 34, PI*2.0**-33),
                     ('OMG0', 34, PI*2.0**-33), ('M0', 34, PI*2.0**-33), ('af0', 25, 0.02/CL), ('af1', 16, 4e-5/CL)):
        g.ensure(nm, val(g, m1, i, w, q, getattr(e, nm)))
        i += w
    send(g, d, m2)
    if not same:
        g.ensure('parts of different issues are not joined', And(d.Eph is e, e.A == 0, e.e == 0, len(d.obad.cov) == 0))
        return
    g.ensure('second part', And(d.Eph is e, close(e.i0, g.field(m2, 12, 33)*PI*2.0**-33, 1e-9), close(e.e, g.field(m2, 45, 30)*2.0**-30, 1e-9),
                                close(e.A, g.field(m2, 75, 31)*0.02, 1e-9)))
    g.ensure('time', And(near(g, d, e.toe, 16*te, 86400), same_time(e.toc, e.toe)))
    ee, el = cov_is(g, m2, 119, None, None)
    q = pow2(ee)
    for r, c, v in el:
        g.ensure('covariance element', close(d.obad.cov[e.sat][r][c], v*q*q, 1e-9))
    g.ensure('integrity', And(d.obad.scl[e.sat] == q, d.obad.dfrei[e.sat] == g.field(m2, 119+99, 4), close(d.obad.dRcorr[e.sat], g.field(m2, 119+103, 4)/15.0, 1e-9)))


@contract('V02', fns=[M+'decode_dfmc_alm'], n=400, tmo=60)
def sbas_almanac(g):
    d = dec(g, (0, 40000, 604799))
    msg = message(g, 47)
    sl = [g.choice('s1', [0, 1, 39]), g.choice('s2', [2, 0])]
    for k in range(2):
        g.setfield(msg, 10+106*k, 6, sl[k])
        g.assume(g.field(msg, 10+106*k+100, 6) < 48)
    send(g, d, msg)
    p2s = resolve('gnss:prn2sat')
    want = {p2s(U('SBS'), s+119): k for k, s in enumerate(sl) if s}
    g.ensure('satellites', set(d.Alm) == set(want))
    for s, k in want.items():
        a, o = d.Alm[s], 10+106*k+12
        f = lambda i, w, sg=False: g.field(msg, o+i, w, sg)
        g.ensure('orbit', And(a.sat == s, close(a.A, 650.0*f(0, 16), 1e-9), close(a.e, f(16, 8)*2.0**-8, 1e-9), close(a.i0, f(24, 13)*PI*2.0**-13, 1e-9)))
        g.ensure('angles', And(close(a.omg, f(37, 14, True)*PI*2.0**-13, 1e-9), close(a.OMG0, f(51, 14, True)*PI*2.0**-13, 1e-9),
                               close(a.OMGd, f(65, 8, True)*1e-9, 1e-9), close(a.M0, f(73, 15, True)*PI*2.0**-14, 1e-9)))
        g.ensure('time', near(g, d, a.toa, 1800*f(88, 6), 86400))


@contract('V02', fns=[M+'check_validity'], n=300)
def expiry(g):
    d = dec(g)
    L = d.lc[0]
    gt = resolve('gnss:gtime_t')
    p2s = resolve('gnss:prn2sat')
    d.sat_n = [p2s(U('GPS'), 5), p2s(U('GPS'), 7), p2s(U('GAL'), 3)]
    known = [d.sat_n[0], d.sat_n[2]]
    if g.choice('many', [0, 1]):
        more = [p2s(U('GPS'), k) for k in range(10, 30)]
        d.sat_n[1:1] = more
        known[1:1] = more
    age = {}
    for k, s in enumerate(known):
        sym = len(known) == 2 or k in (0, len(known)-1)
        age[s] = (g.int('a%d' % s, 0, 400), g.int('b%d' % s, 0, 400)) if sym else (119+k % 4, 118+k % 5)
        t = [gt(d.time.time-x, d.time.sec) for x in age[s]]
        L.t0[s] = {CT('CLOCK'): t[0], CT('ORBIT'): t[1]}
        L.iode[s], L.dclk[s], L.dorb[s] = 7, 1.5, g.array([1.0, 2.0, 3.0])
    g.call(M+'check_validity', d, d.time)
    for s in known:
        c, o = age[s]
        g.ensure('orbit expires after 120 s', And(Iff(L.iode[s] == -1, o > 120), Implies(o <= 120, And(L.iode[s] == 7, L.dorb[s][0] == 1.0, L.dorb[s][2] == 3.0))))
        g.ensure('expired orbit is not applied', Implies(o > 120, And(L.dorb[s][0] == 0, L.dorb[s][1] == 0, L.dorb[s][2] == 0)))
        g.ensure('clock expires after 120 s', L.dclk[s] == Ite(c > 120, 0.0, 1.5))


@contract('V02', fns=[M+'decode_tvs_mc'], n=200)
def tvs_types(g):
    """the message types of the QZSS test signal"""
    d = dec(g)
    pre = g.choice('pre', [0x53, 0x9a, 0xc6])
    mt = g.int('mt', 0, 63)
    got = g.call(M+'decode_tvs_mc', d, pre, mt)
    want = {0x53: 31, 0x9a: 37, 0xc6: 47}[pre]
    h = mt//16
    g.ensure('type', got == Ite(h == 0, 34, Ite(h == 1, want, Ite(h == 2, 32, 63))))
