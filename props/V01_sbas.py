"""V01 SBAS L1 messages (DO-229): mask, fast and long-term corrections, integrity, GEO."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases

M = 'sbas:sbasDec.'
LISTS = [[], [3], [1, 32, 47, 120], list(range(1, 16))]
CL = 299792458.0


def dec(g, lst=None, tows=(40000,)):
    """SBAS decoder whose current mask lists the given PRN"""
    d = resolve('sbas:sbasDec')()
    d.monlevel = 0
    d.iodp = d.iodssr = g.int('iodp0', 0, 3) if lst is not None else -1
    p2s = resolve('gnss:prn2sat')
    d.sat = [p2s(U('GPS'), p) if p <= 37 else p2s(U('GLO'), p-37) if p <= 61 else p2s(U('SBS'), p) for p in (lst or [])]
    g.lift(d, 2)
    d.week = 2300
    d.time = g.call('gnss:gpst2time', 2300, g.choice('tow', tows))
    return d


def message(g, mt, pre=True):
    msg = g.buf('msg', 250)
    g.setfield(msg, 8, 6, mt)
    return msg


def val(g, msg, i, w, q, got):
    """signed field of w bits in units of q; the largest positive value is left open"""
    raw = g.field(msg, i, w, True)
    return Or(raw == (1 << (w-1))-1, And(Not(isnan(got)), close(got, raw*q, 1e-9)))


def send(g, d, msg):
    return g.call(M+'decode_cssr', d, msg)


@contract('V01', fns=['sbas:sbasDec.decode_cssr', 'sbas:sbasDec.decode_sbas_mask', 'cssrlib:cssr.decode_mask'], n=500, tmo=100)
def mask(g):
    d = dec(g)
    w = g.choice('win', [0, 5, 32, 35, 58, 115, 119, 133, 152])
    msg = message(g, 1)
    # mask bits outside a window of six are zero, or set (where satellites are assigned), or alternate
    fill = g.choice('fill', [0, 1, 2])
    n = 2 if fill else 6
    out = lambda k: int((fill == 1 or fill == 2 and k % 2) and (k < 32 or 37 <= k < 61 or 119 <= k < 158))
    for k in range(210):
        if not w <= k < w+n:
            g.setfield(msg, 14+k, 1, out(k))
    send(g, d, msg)
    p2s = resolve('gnss:prn2sat')
    named = lambda p: p2s(U('GPS'), p) if p <= 32 else p2s(U('GLO'), p-37) if 38 <= p <= 61 else p2s(U('SBS'), p) if 120 <= p <= 158 else None
    bits = {p: g.field(msg, 14+p-1, 1) if w < p <= w+n else out(p-1) for p in range(1, 211)}
    # PRN 33-37 are not assigned and 62-119, 159-210 belong to no constellation
    if any(bool(bits[p] == 1) for p in range(33, 38)):
        return
    want = [named(p) for p in sorted(bits) if named(p) is not None and bool(bits[p] == 1)]
    g.ensure('satellites of the mask in PRN order', d.sat == want)
    g.ensure('issue of the mask', And(d.iodp == g.field(msg, 14+210, 2), d.iodssr == d.iodp))


@contract('V01', fns=[M+'decode_sbas_fast_corr', M+'decode_sbas_fast_corr_blk'], n=400, tmo=100)
def fast(g):
    lst = LISTS[g.choice('lst', [0, 1, 2, 3])]
    d = dec(g, lst)
    mt = g.choice('mt', [2, 3, 5])
    msg = message(g, mt)
    same = g.choice('same', [1, 0])
    iodp = g.field(msg, 16, 2)
    g.assume((iodp == d.iodp) if same else (iodp != d.iodp))
    send(g, d, msg)
    L = d.lc[0]
    got = {s: k for k, s in enumerate(d.sat)} if same else {}
    got = {s: k-13*(mt-2) for s, k in got.items() if 0 <= k-13*(mt-2) < 13}
    g.ensure('satellites of the block', And(set(L.hclk) == set(got), set(d.obad.udrei) == set(got)))
    for s, k in got.items():
        raw = g.field(msg, 18+12*k, 12, True)
        g.ensure('fast correction', Or(raw == 2047, close(L.hclk[s], -0.125*raw, 1e-9)))
        g.ensure('integrity', d.obad.udrei[s] == g.field(msg, 18+156+4*k, 4))
        g.ensure('time', same_time(L.t0[s][CT('HCLOCK')], d.time))


@contract('V01', fns=[M+'decode_sbas_integrity', M+'decode_sbas_fast_degradation'], n=400, tmo=100)
def integrity(g):
    lst = LISTS[g.choice('lst', [0, 1, 2, 3])]
    d = dec(g, lst)
    mt = g.choice('mt', [6, 7])
    msg = message(g, mt)
    iodp = g.field(msg, 18, 2)
    same = 1
    if mt == 7:
        same = g.choice('same', [1, 0])
        g.assume((iodp == d.iodp) if same else (iodp != d.iodp))
    send(g, d, msg)
    tbl = d.obad.udrei if mt == 6 else d.ai
    g.ensure('satellites', set(tbl) == (set(d.sat) if same else set()))
    for s in tbl:
        g.ensure('indicator of the satellite', tbl[s] == g.field(msg, 22+4*d.sat.index(s), 4))


LT = (('dorb', 0, -0.125), ('dorb', 1, -0.125), ('dorb', 2, -0.125), ('dclk', None, 2.0**-31*CL))
LV = (('dvel', 0, -2.0**-11), ('dvel', 1, -2.0**-11), ('dvel', 2, -2.0**-11), ('ddft', None, 2.0**-39*CL))


def at(L, nm, k, s):
    v = getattr(L, nm)[s]
    return v if k is None else v[k]


def half(g, d, msg, i, vc, same, slots):
    """lay out half a long-term message; the satellites it corrects with their bits"""
    g.setfield(msg, i, 1, vc)
    iodp = g.field(msg, i+(103 if vc == 0 else 104), 2)
    g.assume((iodp == d.iodp) if same else (iodp != d.iodp))
    out = []
    for k in range(2 if vc == 0 else 1):
        o = i+1+51*k
        sl = slots[k]
        g.setfield(msg, o, 6, sl)
        if same and 1 <= sl <= len(d.sat):
            out.append((d.sat[sl-1], o, vc))
    return out


def check_half(g, d, msg, recs):
    L = d.lc[0]
    last = {s: (o, vc) for s, o, vc in recs}
    g.ensure('satellites corrected', And(set(L.iode) == set(last), set(L.dorb) == set(last), set(L.dclk) == set(last), sorted(d.sat_n) == sorted(last)))
    for s, (o, vc) in last.items():
        g.ensure('issue of the ephemeris', L.iode[s] == g.field(msg, o+6, 8))
        i = o+14
        for nm, k, q in LT:
            w = 11 if vc else (10 if nm == 'dclk' else 9)
            raw = g.field(msg, i, w, True)
            got = at(L, nm, k, s)
            g.ensure(nm, Or(raw == (1 << (w-1))-1 if vc else False, And(Not(isnan(got)), close(got, raw*q, 1e-9))))
            i += w
        for nm, k, q in LV:
            got = at(L, nm, k, s)
            if vc:
                g.ensure(nm, val(g, msg, i, 8, q, got))
                i += 8
            else:
                g.ensure('no rate in the short form', got == 0)
        for t in ('CLOCK', 'ORBIT'):
            g.ensure('time', same_time(L.t0[s][CT(t)], d.time))
    if last:
        g.ensure('corrections available', And(L.cstat & (1 << CT('ORBIT')) != 0, L.cstat & (1 << CT('CLOCK')) != 0,
                                              d.iodssr_c[CT('ORBIT')] == d.iodp, d.iodssr_c[CT('CLOCK')] == d.iodp))


@contract('V01', fns=[M+'decode_sbas_long_corr', M+'decode_sbas_lcorr_half', M+'add_sbas_corr', M+'mask2sat'], n=500, tmo=150)
def long_term(g):
    lst, va, vb, sa, sb, a1, a2, b1, b2 = cases(g, 24, lst=[2, 1], va=[0, 1], vb=[1, 0], sa=[1, 1, 0], sb=[1, 1, 0], a1=[1, 4, 0, 9], a2=[2, 1, 0], b1=[2, 1, 3], b2=[1, 4])
    d = dec(g, LISTS[lst])
    msg = message(g, 25)
    recs = half(g, d, msg, 14, va, sa, (a1, a2))
    recs += half(g, d, msg, 14+106, vb, sb, (b1, b2))
    send(g, d, msg)
    check_half(g, d, msg, recs)


@contract('V01', fns=[M+'decode_sbas_mixed_corr'], n=400, tmo=150)
def mixed(g):
    lst, blk, same, vb, sb, b1, b2 = cases(g, 16, lst=[3, 1], blk=[0, 1, 3], same=[1, 1, 0], vb=[1, 0], sb=[1, 1, 0], b1=[2, 1, 15], b2=[1, 3, 0])
    d = dec(g, LISTS[lst])
    msg = message(g, 24)
    iodp = g.field(msg, 14+96, 2)
    g.setfield(msg, 14+98, 2, blk)
    g.assume((iodp == d.iodp) if same else (iodp != d.iodp))
    recs = half(g, d, msg, 14+106, vb, sb, (b1, b2))
    send(g, d, msg)
    L = d.lc[0]
    got = {d.sat[13*blk+k]: k for k in range(6) if 13*blk+k < len(d.sat)} if same else {}
    g.ensure('satellites of the block', And(set(L.hclk) == set(got), set(d.obad.udrei) == set(got)))
    for s, k in got.items():
        raw = g.field(msg, 14+12*k, 12, True)
        g.ensure('fast correction', Or(raw == 2047, close(L.hclk[s], -0.125*raw, 1e-9)))
        g.ensure('integrity', d.obad.udrei[s] == g.field(msg, 14+72+4*k, 4))
    if same:
        check_half(g, d, msg, recs)


def cov_is(g, msg, i, C, scl):
    """covariance R^T R of the packed triangular matrix at bit i"""
    e = g.field(msg, i, 3)
    f = lambda o, w, s=False: g.field(msg, i+o, w, s)
    u = [f(3, 9), f(12, 9), f(21, 9), f(30, 9)]
    o = [f(39+10*k, 10, True) for k in range(6)]
    R = [[u[0], o[0], o[1], o[2]], [0, u[1], o[3], o[4]], [0, 0, u[2], o[5]], [0, 0, 0, u[3]]]
    out = []
    for a in range(4):
        for b in range(4):
            out.append((a, b, sum(R[k][a]*R[k][b] for k in range(4))))
    return e, out


def pow2(e):
    """2^(e-5), e = 0..7"""
    v = 2.0**2
    for k in range(7):
        v = Ite(e == k, 2.0**(k-5), v)
    return v


@contract('V01', fns=[M+'decode_sbas_cov', M+'decode_cov'], n=300, tmo=150)
def covariance(g):
    lst, same, s1, s2, e1, e2 = cases(g, 16, lst=[2, 1], same=[1, 1, 0], s1=[1, 4, 0], s2=[2, 1, 9], e1=[0, 5, 7, 3], e2=[6, 1, 4, 2])
    d = dec(g, LISTS[lst])
    msg = message(g, 28)
    iodp = g.field(msg, 14, 2)
    g.assume((iodp == d.iodp) if same else (iodp != d.iodp))
    sl = [s1, s2]
    for k in range(2):
        g.setfield(msg, 16+105*k, 6, sl[k])
        # the exponent is unrolled, the elements are any
        g.setfield(msg, 22+105*k, 3, (e1, e2)[k])
    send(g, d, msg)
    want = {d.sat[s-1]: k for k, s in enumerate(sl) if same and 1 <= s <= len(d.sat)}
    g.ensure('satellites', And(set(d.obad.cov) == set(want), set(d.obad.scl) == set(want)))
    for s, k in want.items():
        e, el = cov_is(g, msg, 22+105*k, None, None)
        q = pow2(e)
        g.ensure('scale', d.obad.scl[s] == q)
        for a, b, v in el:
            g.ensure('covariance element', close(d.obad.cov[s][a][b], v*q*q, 1e-9))


@contract('V01', fns=[M+'decode_sbas_ranging'], n=500, tmo=60)
def geo_nav(g):
    """the ephemeris of the GEO satellite itself"""
    d = dec(g, tows=(0, 40000, 604799))
    prn = g.choice('prn', [120, 137, 158])
    msg = message(g, 9)
    t0 = g.field(msg, 22, 13)
    g.assume(t0 < 5400)
    g.call(M+'decode_cssr', d, msg, 0, 0, prn)
    e = d.Seph
    g.ensure('satellite', e.sat == g.call('gnss:prn2sat', U('SBS'), prn))
    ura = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 0]
    r = g.field(msg, 35, 4)
    for k in range(16):
        g.ensure('accuracy', Implies(r == k, e.sva == ura[k]))
    i = 39
    for nm, ws, qs in (('pos', (30, 30, 25), (0.08, 0.08, 0.4)), ('vel', (17, 17, 18), (6.25e-4, 6.25e-4, 4e-3)), ('acc', (10, 10, 10), (1.25e-5, 1.25e-5, 6.25e-5))):
        for k in range(3):
            g.ensure(nm, val(g, msg, i, ws[k], qs[k], getattr(e, nm)[k]))
            i += ws[k]
    g.ensure('clock', And(val(g, msg, i, 12, 2.0**-31, e.af0), val(g, msg, i+12, 8, 2.0**-40, e.af1)))
    g.ensure('time of the day nearest to the reception', near(g, d, e.t0, 16*t0, 86400))


def near(g, d, t, tod, per):
    dt = t.time-d.time.time
    return And(dt <= per//2, dt >= -per//2, (t.time-g.call('gnss:gpst2time', 2300, 0).time-tod) % per == 0)


@contract('V01', fns=[M+'decode_sbas_almanac'], n=400, tmo=60)
def geo_almanac(g):
    d = dec(g, tows=(0, 40000, 604799))
    msg = message(g, 17)
    prn = [g.choice('prn%d' % k, v) for k, v in enumerate(([120, 0], [0, 129], [158, 131]))]
    for k in range(3):
        g.setfield(msg, 14+67*k+2, 8, prn[k])
    t0 = g.field(msg, 14+201, 11)
    g.assume(t0 < 1350)
    send(g, d, msg)
    p2s = resolve('gnss:prn2sat')
    want = {p2s(U('SBS'), p): k for k, p in enumerate(prn) if p}
    g.ensure('satellites', set(d.Alm) == set(want))
    for s, k in want.items():
        a, i = d.Alm[s], 14+67*k+10
        g.ensure('health', And(a.sat == s, a.svh == g.field(msg, i, 8)))
        i += 8
        for nm, ws, qs in (('pos', (15, 15, 9), (2600., 2600., 26000.)), ('vel', (3, 3, 4), (10., 10., 60.))):
            for j in range(3):
                g.ensure(nm, val(g, msg, i, ws[j], qs[j], getattr(a, nm)[j]))
                i += ws[j]
        g.ensure('time', near(g, d, a.t0, 64*t0, 86400))


@contract('V01', fns=[M+'decode_sbas_degradation_param', M+'decode_sbas_service'], n=400, tmo=60)
def parameters(g):
    d = dec(g)
    mt = g.choice('mt', [10, 27])
    msg = message(g, mt)
    send(g, d, msg)
    f = lambda i, w, s=False: g.field(msg, 14+i, w, s)
    if mt == 10:
        i = 0
        for k, (w, q) in enumerate(((10, .002), (10, .002), (10, 5e-5), (9, 1.), (10, .002), (9, 1.), (10, .0005), (10, 5e-5), (9, 1.), (6, .5), (10, .001),
                                    (9, 1.), (10, 5e-6), (1, 1), (1, 1), (7, .1))):
            g.ensure('degradation parameter %d' % k, close(d.deg_prm[k], f(i, w)*q, 1e-9))
            i += w
        return
    s = d.sinfo
    g.ensure('service', And(s.iods == f(0, 3), s.nmsg == f(3, 3), s.snum == f(6, 3), s.nreg == f(9, 3), s.priority == f(12, 2), s.dUDRE_in == f(14, 4), s.dUDRE_out == f(18, 4)))
    for k in range(5):
        o = 22+35*k
        g.ensure('region', And(s.lat1[k] == f(o, 8, True), s.lon1[k] == f(o+8, 9, True), s.lat2[k] == f(o+17, 8, True), s.lon2[k] == f(o+25, 9, True), s.shape[k] == f(o+34, 1)))
