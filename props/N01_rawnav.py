"""N01 raw navigation messages of receivers: an ephemeris is composed only of parts of one issue, every field at its place in its unit."""
import math
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U
from .f_common import cases
from .A01_osnma_keys import eqb

N = 'rawnav:RawNav.'
SC = math.pi
P2 = lambda k: 2.0**-k
DAY, WEEK = 86400, 604800
GPS0, GST0, BDT0 = 315964800, 935280000, 1136073600+14


def sat_of(sy, prn):
    return resolve('gnss:prn2sat')(U(sy), prn)


def value(g, get, pcs, signed=False):
    """number spread over pieces (part, first bit, bits), most significant first"""
    v, first = 0, True
    for p, i, w in pcs:
        b, o = get(p)
        x = g.field(b, o+i, w, signed and first)
        v = v*(1 << w)+x if not first else x
        first = False
    return v


def forms(g, get, pcs, signed=False):
    """the number as a sum over the pieces and as one field of a buffer that has the pieces next to each other
    (equal; what is compared with the one form is sometimes hard to compare with the other)"""
    v = value(g, get, pcs, signed)
    if len(pcs) == 1 or not g.symbolic:
        return [v]
    x, o = g.zbuf('joined', sum(w for _, _, w in pcs)), 0
    for p, i, w in pcs:
        b, o0 = get(p)
        g.setfield(x, o, w, g.field(b, o0+i, w))
        o += w
    return [g.field(x, 0, o, signed), v]


def read(g, get, lay):
    return {nm: ([value(g, get, pcs, kind == 's')], q) for nm, pcs, kind, q in lay}


def either(cs):
    """one of equal conditions: the first that is evident, or else the last"""
    for c in cs[:-1]:
        if not hasattr(c, 'z') or str(__import__('z3').simplify(c.z)) == 'True':
            return c
    return cs[-1]


def agree(g, eph, vals):
    for nm, (vs, q) in vals.items():
        got = getattr(eph, nm)
        g.ensure(nm, either([got == v if q == 1 else close(got/q, v) for v in vs]))


def square(got, vs):
    return either([close(got, x*x) for x in vs])


def nearest(wk, tos, tow):
    """week that puts the time of week next to the transmission time"""
    return Ite(tos-tow > WEEK//2, wk-1, Ite(tow-tos > WEEK//2, wk+1, wk))


def at(t, org, wk, tos):
    return And(t.time == org+WEEK*wk+tos, t.sec == 0)


def likely(g, name):
    """steer random inputs to a case that they would hardly ever meet (a proof meets every case anyway)"""
    return not g.symbolic and g.choice(name, [True, True, False])


def state(g, rn, tab, prn, nbits=1600):
    """decoder that has received anything before about the satellite"""
    st = g.buf('state', nbits)
    getattr(rn, tab)[prn] = st
    return st


def decoder(g):
    rn = resolve('rawnav:RawNav')()
    rn.monlevel = 0
    return rn


# ---------------------------------------------------------------- GPS, QZSS LNAV
def W(p, w, b, n):
    """bit b of word w of the subframe (words of 30 bits in 32)"""
    return (p, 32*(w-1)+1+b, n)


LNAV = [('code', [W(0, 3, 11, 2)], 'u', 1), ('svh', [W(0, 3, 17, 6)], 'u', 1), ('iodc', [W(0, 3, 23, 2), W(0, 8, 1, 8)], 'u', 1),
        ('l2p', [W(0, 4, 1, 1)], 'u', 1), ('tgd', [W(0, 7, 17, 8)], 's', P2(31)), ('af2', [W(0, 9, 1, 8)], 's', P2(55)),
        ('af1', [W(0, 9, 9, 16)], 's', P2(43)), ('af0', [W(0, 10, 1, 22)], 's', P2(31)),
        ('iode', [W(1, 3, 1, 8)], 'u', 1), ('crs', [W(1, 3, 9, 16)], 's', P2(5)), ('deln', [W(1, 4, 1, 16)], 's', P2(43)*SC),
        ('M0', [W(1, 4, 17, 8), W(1, 5, 1, 24)], 's', P2(31)*SC), ('cuc', [W(1, 6, 1, 16)], 's', P2(29)),
        ('e', [W(1, 6, 17, 8), W(1, 7, 1, 24)], 'u', P2(33)), ('cus', [W(1, 8, 1, 16)], 's', P2(29)), ('toes', [W(1, 10, 1, 16)], 'u', 16),
        ('cic', [W(2, 3, 1, 16)], 's', P2(29)), ('OMG0', [W(2, 3, 17, 8), W(2, 4, 1, 24)], 's', P2(31)*SC), ('cis', [W(2, 5, 1, 16)], 's', P2(29)),
        ('i0', [W(2, 5, 17, 8), W(2, 6, 1, 24)], 's', P2(31)*SC), ('crc', [W(2, 7, 1, 16)], 's', P2(5)),
        ('omg', [W(2, 7, 17, 8), W(2, 8, 1, 24)], 's', P2(31)*SC), ('OMGd', [W(2, 9, 1, 24)], 's', P2(43)*SC), ('idot', [W(2, 10, 9, 14)], 's', P2(43)*SC)]


@contract('N01', fns=[N+'decode_gps_lnav'], n=400, tmo=100)
def lnav(g):
    sy, sf, pre = cases(g, 9, sy=['GPS', 'QZS'], sf=[1, 2, 3, 4], pre=[0x8b, 0x8b, 0x74])
    prn = {'GPS': 7, 'QZS': 194}[sy]
    rn = decoder(g)
    st = state(g, rn, 'gps_lnav' if sy == 'GPS' else 'qzs_lnav', {'GPS': 6, 'QZS': 1}[sy])
    msg = g.buf('msg', 320)
    g.setfield(msg, 2, 8, pre)
    g.setfield(msg, 53, 3, sf)
    if likely(g, 'complete'):
        for j in range(3):
            g.setfield(st, 320*j+53, 3, j+1)
    get = lambda p: (msg, 0) if p == sf-1 else (st, 320*p)
    iod = [(get(j)[0], get(j)[1]+W(j, w, bt, 8)[1]) for j, (w, bt) in enumerate(((8, 1), (3, 1), (10, 1)))]
    if likely(g, 'issue'):
        for j in (1, 2):
            g.setfield(iod[j][0], iod[j][1], 8, g.field(iod[0][0], iod[0][1], 8))
    iod = [g.field(b, o, 8) for b, o in iod]
    b, o = get(1)
    g.setfield(b, o+W(1, 6, 17, 1)[1], 1, 0)        # eccentricity below one half
    old = [g.field(st, 320*j+53, 3) for j in range(3)]
    # the present week is near the transmitted one
    off = g.int('dweek', -512, 511)
    tow = value(g, get, [W(0, 2, 1, 17)])*6
    tos, toc = value(g, get, [W(1, 10, 1, 16)])*16, value(g, get, [W(0, 8, 9, 16)])*16
    wn = value(g, get, [W(0, 3, 1, 10)])
    # ephemeris and clock refer to the same week
    g.assume(And(tow < WEEK, tos < WEEK, toc < WEEK, nearest(0, tos, tow) == nearest(0, toc, tow)))
    week = wn+2048+off
    keep = [get(j) for j in range(3)]
    sat = sat_of(sy, prn)
    vals = read(g, get, LNAV)
    s = forms(g, get, [W(1, 8, 17, 8), W(1, 9, 1, 24)])
    ura = value(g, get, [W(0, 3, 13, 4)])
    with g.stub('rawnav:RawNav.urai2sva', lambda self, u, sys=None: u):
        eph = g.call(N+'decode_gps_lnav', rn, week, 0, sat, msg)
    ok = And(pre == 0x8b, *[True if j == sf-1 else old[j] == j+1 for j in range(3)], iod[0] == iod[1], iod[0] == iod[2])
    g.ensure('issued when the three subframes of one issue are there', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, vals)
    g.ensure('semi-major axis', square(eph.A*P2(-38), s))
    g.ensure('accuracy', eph.sva == ura)
    wk = nearest(wn+2048, tos, tow)
    g.ensure('toe', at(eph.toe, GPS0, wk, tos))
    g.ensure('toc', at(eph.toc, GPS0, wk, toc))
    g.ensure('week', eph.week == wk)
    g.ensure('transmission time', at(eph.tot, GPS0, wn+2048, tow))
    g.ensure('kind', eph.mode == 0)


# ---------------------------------------------------------------- Galileo I/NAV, F/NAV
def T(p, i, w):
    return [(p, i, w)]


KEP = lambda m0, e, om0, i0, om, idot, omd, dn, harm: [
    ('M0', m0, 's', P2(31)*SC), ('e', e, 'u', P2(33)), ('OMG0', om0, 's', P2(31)*SC), ('i0', i0, 's', P2(31)*SC),
    ('omg', om, 's', P2(31)*SC), ('idot', idot, 's', P2(43)*SC), ('OMGd', omd, 's', P2(43)*SC), ('deln', dn, 's', P2(43)*SC)]+[
    (nm, h, 's', P2(5) if nm in ('crc', 'crs') else P2(29)) for nm, h in zip(('cuc', 'cus', 'crc', 'crs', 'cic', 'cis'), harm)]

INAV = KEP(T(1, 30, 32), T(1, 62, 32), T(2, 16, 32), T(2, 48, 32), T(2, 80, 32), T(2, 112, 14), T(3, 16, 24), T(3, 40, 16),
           [T(3, 56, 16), T(3, 72, 16), T(3, 88, 16), T(3, 104, 16), T(4, 22, 16), T(4, 38, 16)])+[
    ('toes', T(1, 16, 14), 'u', 60), ('af0', T(4, 68, 31), 's', P2(34)), ('af1', T(4, 99, 21), 's', P2(46)), ('af2', T(4, 120, 6), 's', P2(59)),
    ('iode', T(1, 6, 10), 'u', 1), ('iodc', T(1, 6, 10), 'u', 1), ('sva', T(3, 120, 8), 'u', 1),
    ('tgd', T(5, 47, 10), 's', P2(32)), ('tgd_b', T(5, 57, 10), 's', P2(32))]


def gal_epochs(g, eph, wn, tow, toe, toc):
    wk = nearest(wn, toe, tow)
    g.ensure('toe', at(eph.toe, GST0, wk, toe))
    g.ensure('toc', at(eph.toc, GST0, nearest(wn, toc, tow), toc))
    g.ensure('week', eph.week == wk+1024)
    g.ensure('transmission time', at(eph.tot, GST0, wn, tow))


@contract('N01', fns=[N+'decode_gal_inav'], n=400, tmo=100)
def inav(g):
    wt, src = cases(g, 10, wt=[0, 1, 2, 3, 4, 5, 6], src=[0, 2])
    rn = decoder(g)
    st = state(g, rn, 'gal_inav', 10)
    word, msg = g.buf('word', 128), g.buf('msg', 248)
    g.setfield(word, 0, 6, wt)
    if likely(g, 'complete'):
        for j in range(1, 6):
            g.setfield(st, 128*j, 6, j)
    get = lambda p: (word, 0) if p == wt else (st, 128*p)
    if likely(g, 'issue'):
        b0, o0 = get(1)
        for j in (2, 3, 4):
            b, o = get(j)
            g.setfield(b, o+6, 10, g.field(b0, o0+6, 10))
    # transmitted in two page parts of 112 and 16 bits
    g.setfield(msg, 2, 112, g.field(word, 0, 112))
    g.setfield(msg, 122, 16, g.field(word, 112, 16))
    old = [None]+[g.field(st, 128*j, 6) for j in range(1, 6)]
    iod = [None]+[g.field(get(j)[0], get(j)[1]+6, 10) for j in (1, 2, 3, 4)]
    vals = read(g, get, INAV)
    s = forms(g, get, T(1, 94, 32))
    f = lambda p, i, w: value(g, get, T(p, i, w))
    toe, toc, wn, tow = f(1, 16, 14)*60, f(4, 54, 14)*60, f(5, 73, 12), f(5, 85, 20)
    hs = [f(5, 67, 2), f(5, 69, 2), f(5, 71, 1), f(5, 72, 1)]
    g.assume(And(tow < WEEK, toe < WEEK, toc < WEEK))
    sat = sat_of('GAL', 11)
    with g.stub('rawnav:RawNav.sisa2sva', lambda self, u: u):
        eph = g.call(N+'decode_gal_inav', rn, 2000, 0, sat, src, msg)
    ok = And(1 <= wt <= 5, *[True if j == wt else old[j] == j for j in range(1, 6)], *[iod[1] == iod[j] for j in (2, 3, 4)])
    g.ensure('issued when the five words are there, of one issue', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, vals)
    g.ensure('semi-major axis', square(eph.A*P2(-38), s))
    gal_epochs(g, eph, wn, tow, toe, toc)
    g.ensure('health', eph.svh == hs[0]*128+hs[2]*64+hs[1]*2+hs[3])
    g.ensure('kind', And(eph.mode == 0, eph.code == (1 << 9)+(1 if src == 0 else 4)))


FNAV = KEP(T(2, 16, 32), T(2, 72, 32), T(2, 136, 32), T(3, 16, 32), T(3, 48, 32), T(2, 168, 14), T(2, 48, 24), T(3, 80, 16),
           [T(3, 96, 16), T(3, 112, 16), T(3, 128, 16), T(3, 144, 16), T(4, 16, 16), T(4, 32, 16)])+[
    ('toes', T(3, 160, 14), 'u', 60), ('af0', T(1, 36, 31), 's', P2(34)), ('af1', T(1, 67, 21), 's', P2(46)), ('af2', T(1, 88, 6), 's', P2(59)),
    ('iode', T(1, 12, 10), 'u', 1), ('iodc', T(1, 12, 10), 'u', 1), ('sva', T(1, 94, 8), 'u', 1), ('tgd', T(1, 143, 10), 's', P2(32))]


@contract('N01', fns=[N+'decode_gal_fnav'], n=400, tmo=100)
def fnav(g):
    pt, = cases(g, 11, pt=[1, 1, 2, 3, 4, 5, 6])
    rn = decoder(g)
    st = state(g, rn, 'gal_fnav', 3)
    msg = g.buf('msg', 248)
    g.setfield(msg, 0, 6, pt)
    if likely(g, 'complete'):
        for j in range(4):
            g.setfield(st, 248*j, 6, j+1)
    get = lambda p: (msg, 0) if p == pt else (st, 248*(p-1))
    io = lambda j: 12 if j == 1 else 6
    if likely(g, 'issue'):
        b0, o0 = get(1)
        for j in (2, 3, 4):
            b, o = get(j)
            g.setfield(b, o+io(j), 10, g.field(b0, o0+12, 10))
    old = [None]+[g.field(st, 248*j, 6) for j in range(4)]
    iod = [None]+[g.field(get(j)[0], get(j)[1]+io(j), 10) for j in (1, 2, 3, 4)]
    vals = read(g, get, FNAV)
    s = forms(g, get, T(2, 104, 32))
    f = lambda p, i, w: value(g, get, T(p, i, w))
    toe, toc, wn, tow = f(3, 160, 14)*60, f(1, 22, 14)*60, f(1, 155, 12), f(1, 167, 20)
    hs, dvs = f(1, 153, 2), f(1, 187, 1)
    g.assume(And(tow < WEEK, toe < WEEK, toc < WEEK))
    sat = sat_of('GAL', 4)
    with g.stub('rawnav:RawNav.sisa2sva', lambda self, u: u):
        eph = g.call(N+'decode_gal_fnav', rn, 2000, 0, sat, 1, msg)
    ok = And(*[True if j == pt else old[j] == j for j in range(1, 5)], *[iod[1] == iod[j] for j in (2, 3, 4)])
    g.ensure('only when the four pages are there, of one issue', Or(eph is None, And(ok, pt <= 4)))
    if pt == 1:
        g.ensure('issued when the four pages are there, of one issue', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, vals)
    g.ensure('semi-major axis', square(eph.A*P2(-38), s))
    gal_epochs(g, eph, wn, tow, toe, toc)
    g.ensure('health', eph.svh == hs*16+dvs*8)
    g.ensure('kind', And(eph.mode == 1, eph.code == (1 << 8)+2))


# ---------------------------------------------------------------- GPS, QZSS CNAV, CNAV-2
def seq(p, i, *fields):
    """fields next to each other: (name, bits, kind, unit), a name None for what is not kept"""
    out = []
    for nm, w, kind, q in fields:
        if nm:
            out.append((nm, [(p, i, w)], kind, q))
        i += w
    return out


KEP1 = [('dA', 26, 's', P2(9)), ('Adot', 25, 's', P2(21)), ('deln', 17, 's', P2(44)*SC), ('delnd', 23, 's', P2(57)*SC),
        ('M0', 33, 's', P2(32)*SC), ('e', 33, 'u', P2(34)), ('omg', 33, 's', P2(32)*SC)]
ANGLES = [('OMG0', 33, 's', P2(32)*SC), ('i0', 33, 's', P2(32)*SC), ('OMGd', 17, 's', 1), ('idot', 15, 's', P2(44)*SC)]
HARM = [(nm, w, 's', P2(30) if w != 24 else P2(8)) for nm, w in (('cis', 16), ('cic', 16), ('crs', 24), ('crc', 24), ('cus', 21), ('cuc', 21))]
CLK = [('af0', 26, 's', P2(35)), ('af1', 20, 's', P2(48)), ('af2', 10, 's', P2(60))]
URA = [('ura0', 5, 's', 1), ('ura1', 3, 'u', 1), ('ura2', 3, 'u', 1)]
CNAV = seq(0, 20, ('tow', 17, 'u', 6), ('alert', 1, 'u', 1), ('wn', 13, 'u', 1), ('svh', 3, 'u', 1), ('tops', 11, 'u', 300), ('ura_ed', 5, 's', 1),
           ('toes', 11, 'u', 300), *KEP1, ('isf', 1, 'u', 1), ('esf', 1, 'u', 1)) + \
    seq(1, 49, *ANGLES, *HARM) + \
    seq(2, 49, *URA, ('toc', 11, 'u', 300), *CLK, ('tgd', 13, 's', P2(35)), *[('isc%d' % k, 13, 's', P2(35)) for k in range(4)],
        (None, 64, 'u', 1), ('wn_op', 8, 'u', 1))
CNAV2 = seq(0, 0, ('toi', 9, 'u', 18))+seq(0, 52, ('wn', 13, 'u', 1), ('itow', 8, 'u', 7200), ('tops', 11, 'u', 300), ('svh', 1, 'u', 1), ('ura_ed', 5, 's', 1),
    ('toes', 11, 'u', 300), *KEP1, *ANGLES, *HARM, *URA, *CLK, ('tgd', 13, 's', P2(35)), ('isc5', 13, 's', P2(35)), ('isc4', 13, 's', P2(35)),
    ('isf', 1, 'u', 1), ('wn_op', 8, 'u', 1), ('esf', 1, 'u', 1)) + \
    seq(0, 1252, (None, 14, 'u', 1), (None, 98, 'u', 1), (None, 64, 'u', 1), *[('isc%d' % k, 13, 's', P2(35)) for k in range(4)])
ALIKE = ('tops', 'toes', 'Adot', 'deln', 'delnd', 'M0', 'e', 'omg', 'OMG0', 'i0', 'idot', 'cis', 'cic', 'crs', 'crc', 'cus', 'cuc', 'af0', 'af1', 'af2', 'tgd', 'svh')


def near_week(week, ref, low, mod):
    """week with the given value modulo mod next to the reference"""
    return And((week-low) % mod == 0, -mod//2 <= week-ref, week-ref <= mod//2)


def cnav_common(g, eph, lay, vals, sy, tow, toc, parts):
    v = lambda nm: vals[nm][0][0]
    agree(g, eph, {nm: vals[nm] for nm in ALIKE})
    g.ensure('semi-major axis', close((eph.A-(26559710 if sy == 'GPS' else 42164200))/P2(9), v('dA')))
    g.ensure('rate of the node', close((eph.OMGd/SC+2.6e-9)/P2(44), v('OMGd'), 1e-5))
    g.ensure('accuracy', And(*[eph.urai[k] == v(nm) for k, nm in enumerate(('ura0', 'ura1', 'ura2', 'ura_ed'))]))
    g.ensure('group delays', And(*[close(eph.isc[k]/P2(35), v('isc%d' % k)) for k in parts],
                                 *[eph.isc[k] == 0 for k in range(6) if k not in parts]))
    wn, toe = v('wn'), v('toes')*300
    wk = nearest(wn, toe, tow)
    g.ensure('toe', at(eph.toe, GPS0, wk, toe))
    g.ensure('toc', at(eph.toc, GPS0, wk, toc))
    g.ensure('week', eph.week == wk)
    g.ensure('transmission time', at(eph.tot, GPS0, wn, tow))
    g.ensure('epoch of the prediction', And(at(eph.top, GPS0, eph.wn_op, v('tops')*300), near_week(eph.wn_op, wn, v('wn_op'), 256)))


@contract('N01', fns=[N+'decode_gps_cnav', N+'decode_gps_cnav_gd', N+'decode_gps_cnav_iono'], n=400, tmo=100)
def cnav(g):
    sy, mt, other = cases(g, 12, sy=['GPS', 'QZS'], mt=[10, 11, 30, 61, 32, 12, 15, 9, 29, 38], other=[30, 30, 61, 33, 0])
    prn = {'GPS': 22, 'QZS': 195}[sy]
    rn = decoder(g)
    st = state(g, rn, 'gps_cnav' if sy == 'GPS' else 'qzs_cnav', {'GPS': 21, 'QZS': 2}[sy])
    msg = g.buf('msg', 312)
    g.setfield(msg, 14, 6, mt)
    slot = {10: 0, 11: 1}.get(mt, 2 if 30 <= mt <= 37 or (mt == 61 and sy == 'QZS') else None)
    if sy == 'GPS' and other == 61:
        other = 0                   # never stored: not a message of GPS
    for j, t in enumerate((10, 11, other)):
        if j == 2 or likely(g, 'type%d' % j):
            g.setfield(st, 304*j+14, 6, t)
    if likely(g, 'to us'):
        g.setfield(msg, 0, 8, 0x8b)
        g.setfield(msg, 8, 6, prn % 192)
    get = lambda p: (msg, 0) if p == slot else (st, 304*p)
    fld = lambda p, i, w: g.field(get(p)[0], get(p)[1]+i, w)
    if likely(g, 'issue'):
        for p, i in ((1, 38), (2, 60)):
            g.setfield(get(p)[0], get(p)[1]+i, 11, fld(0, 70, 11))
    g.setfield(get(0)[0], get(0)[1]+[i for nm, [(p, i, w)], _, _ in CNAV if nm == 'e'][0], 1, 0)
    g.setfield(get(2)[0], get(2)[1]+38, 11, fld(0, 54, 11))   # one epoch of prediction per issue
    typ = [fld(j, 14, 6) for j in range(3)]
    iss = [fld(0, 70, 11), fld(1, 38, 11), fld(2, 60, 11)]
    head = And(g.field(msg, 0, 8) == 0x8b, g.field(msg, 8, 6) == prn % 192)
    vals = read(g, get, CNAV)
    v = lambda nm: vals[nm][0][0]
    tow, toe = v('tow')*6, v('toes')*300
    g.assume(And(tow < WEEK, toe < WEEK))
    sat = sat_of(sy, prn)
    eph = g.call(N+'decode_gps_cnav', rn, 2300, 0, sat, msg)
    ok = And(head, typ[0] == 10, typ[1] == 11, Or(typ[2] == 30, And(sy == 'QZS', typ[2] == 61)), iss[0] == iss[1], iss[0] == iss[2])
    g.ensure('only when the three messages are there, of one issue', Or(eph is None, ok))
    if slot is not None:
        g.ensure('issued when the three messages are there, of one issue', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    cnav_common(g, eph, CNAV, vals, sy, tow, v('toc')*300, range(4))
    g.ensure('integrity', eph.integ == v('alert')*4+v('esf')*2+v('isf'))
    g.ensure('kind', And(eph.mode == 1, eph.code == 1))


@contract('N01', fns=[N+'decode_gps_cnav2', N+'decode_gps_cnav_gd', N+'decode_gps_cnav_iono', N+'decode_gps_cnav_utc'], n=300, tmo=100)
def cnav2(g):
    sy, page = cases(g, 13, sy=['GPS', 'QZS'], page=[1, 61, 2, 0, 6])
    rn = decoder(g)
    msg = g.buf('msg', 1536)
    g.setfield(msg, 1260, 6, page)
    g.setfield(msg, [i for nm, [(p, i, w)], _, _ in CNAV2 if nm == 'e'][0], 1, 0)
    vals = read(g, lambda p: (msg, 0), CNAV2)
    v = lambda nm: vals[nm][0][0]
    tow, toe = v('itow')*7200+v('toi')*18, v('toes')*300
    g.assume(And(tow < WEEK, toe < WEEK))
    sat = sat_of(sy, {'GPS': 22, 'QZS': 195}[sy])
    eph = g.call(N+'decode_gps_cnav2', rn, 2300, 0, sat, msg)
    g.ensure('issued with group delays', Iff(eph is not None, page in (1, 61)))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    cnav_common(g, eph, CNAV2, vals, sy, tow, toe, range(6))
    g.ensure('integrity', eph.integ == v('isf')+(v('esf')*2 if sy == 'QZS' else 0))
    g.ensure('kind', And(eph.mode == 2, eph.code == 2))


# ---------------------------------------------------------------- BDS B-CNAV1, B-CNAV2, B-CNAV3
EPH1 = [('toes', 11, 'u', 300), ('sattype', 2, 'u', 1), *KEP1]
EPH2 = ANGLES[:2]+[('OMGd', 19, 's', P2(44)*SC), ANGLES[3]]+HARM
BCLK = [('toc', 11, 'u', 300), ('af0', 25, 's', P2(34)), ('af1', 22, 's', P2(50)), ('af2', 11, 's', P2(66))]
ACC = [('top', 11, 'u', 300), ('oc0', 5, 'u', 1), ('oc1', 3, 'u', 1), ('oc2', 3, 'u', 1)]
DELAY = lambda *nm: [(x, 12, 's', P2(34)) for x in nm]
B1C = seq(0, 0, ('wn', 13, 'u', 1), ('how', 8, 'u', 3600), ('iodc', 10, 'u', 1), ('iode', 8, 'u', 1), *EPH1, *EPH2, *BCLK,
          *DELAY('tgd_b', 'isc0', 'tgd'))+seq(0, 872, ('soh', 8, 'u', 18)) + \
    seq(0, 608, (None, 6, 'u', 1), ('svh', 2, 'u', 1), ('integ', 3, 'u', 1), ('sismai', 4, 's', 1), ('oe', 5, 'u', 1), *ACC)
B2A = seq(0, 12, ('sow', 18, 'u', 3), ('wn', 13, 'u', 1), ('integ_b2a', 3, 'u', 1), ('sismai', 4, 's', 1), ('integ_b1c', 3, 'u', 1), ('iode', 8, 'u', 1), *EPH1) + \
    seq(1, 30, ('svh', 2, 'u', 1), (None, 10, 'u', 1), *EPH2) + \
    seq(2, 42, *BCLK, ('iodc', 10, 'u', 1), *DELAY('tgd_b', 'isc1'), (None, 74, 'u', 1), *DELAY('tgd')) + \
    seq(4, 42, ('oe', 5, 'u', 1), *ACC)
B2B = seq(0, 18, ('sow', 20, 'u', 1), (None, 4, 'u', 1), *EPH1, *EPH2, ('integ', 3, 'u', 1), ('sismai', 4, 's', 1)) + \
    seq(1, 38, ('wn', 13, 'u', 1), (None, 4, 'u', 1), *BCLK, *DELAY('tgd'), (None, 74+97+138, 'u', 1), *ACC, ('oe', 5, 'u', 1), ('svh', 2, 'u', 1))
BDS_ALIKE = ('toes', 'sattype', 'Adot', 'deln', 'delnd', 'M0', 'e', 'omg', 'OMG0', 'i0', 'OMGd', 'idot', 'cis', 'cic', 'crs', 'crc', 'cus', 'cuc',
             'af0', 'af1', 'af2', 'tgd', 'svh', 'sismai')


def bcnav(g, eph, vals, tow, isc, extra):
    v = lambda nm: vals[nm][0][0]
    agree(g, eph, {nm: vals[nm] for nm in BDS_ALIKE+extra})
    # medium orbit, or else geosynchronous
    g.ensure('semi-major axis', close((eph.A-Ite(v('sattype') == 3, 27906100, 42162200))/P2(9), v('dA')))
    g.ensure('group delays', And(*[close(eph.isc[k]/P2(34), v('isc%d' % k)) if k == isc else eph.isc[k] == 0 for k in range(6)]))
    g.ensure('accuracy', And(*[(eph.sisai[k]-v(nm)) % m == 0 for k, nm, m in ((0, 'oe', 32), (1, 'oc0', 32), (2, 'oc1', 8), (3, 'oc2', 8))]))
    g.ensure('epoch of the accuracy', eph.tops == v('top')*300)
    wn, toe, toc = v('wn'), v('toes')*300, v('toc')*300
    wk = nearest(wn, toe, tow)
    g.ensure('toe', at(eph.toe, BDT0, wk, toe))
    g.ensure('toc', at(eph.toc, BDT0, nearest(wn, toc, tow), toc))
    g.ensure('week', eph.week == wk)
    g.ensure('transmission time', at(eph.tot, BDT0, wn, tow))


def bds_epochs(g, vals):
    v = lambda nm: vals[nm][0][0]
    toe, toc = v('toes')*300, v('toc')*300
    g.assume(And(toe < WEEK, toc < WEEK))


@contract('N01', fns=[N+x for x in ('decode_bds_b1c', 'decode_bds_cnav_eph1', 'decode_bds_cnav_eph2', 'decode_bds_cnav_clk', 'decode_bds_cnav_sisai', 'set_bds_cnav_time', 'adjweek')], n=200, tmo=100)
def b1c(g):
    page, = cases(g, 14, page=[1, 1, 2, 3, 4, 0, 9])
    rn = decoder(g)
    msg = g.buf('msg', 880)
    g.setfield(msg, 608, 6, page)
    if likely(g, 'issue'):
        g.setfield(msg, 31, 8, g.field(msg, 23, 8))
    vals = read(g, lambda p: (msg, 0), B1C)
    v = lambda nm: vals[nm][0][0]
    tow = v('how')*3600+v('soh')*18
    bds_epochs(g, vals)
    g.assume(tow < WEEK)
    sat = sat_of('BDS', 30)
    eph = g.call(N+'decode_bds_b1c', rn, 800, 0, sat, msg)
    g.ensure('only with orbit and clock of one issue', Implies(eph is not None, (v('iodc') & 255) == v('iode')))
    if page == 1:
        g.ensure('issued with the accuracy', Iff(eph is not None, (v('iodc') & 255) == v('iode')))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    bcnav(g, eph, vals, tow, 0, ('iodc', 'iode', 'integ', 'tgd_b'))
    g.ensure('kind', eph.mode == 1)


@contract('N01', fns=[N+x for x in ('decode_bds_b2a', 'decode_bds_cnav_eph1', 'decode_bds_cnav_eph2', 'decode_bds_cnav_clk', 'decode_bds_cnav_sisai', 'set_bds_cnav_time', 'adjweek')], n=300, tmo=100)
def b2a(g):
    mt, = cases(g, 15, mt=[10, 11, 30, 34, 40, 10, 31, 0])
    rn = decoder(g)
    st = state(g, rn, 'bds_cnv2', 29)
    msg = g.buf('msg', 288)
    g.setfield(msg, 6, 6, mt)
    slot = {10: 0, 11: 1, 30: 2, 34: 3, 40: 4}.get(mt)
    get = lambda p: (msg, 0) if p == slot else (st, 320*p)
    fld = lambda p, i, w: g.field(get(p)[0], get(p)[1]+i, w)
    if likely(g, 'complete'):
        for j, t in enumerate((10, 11, 30, 0, 40)):
            if t and j != slot:
                g.setfield(st, 320*j+6, 6, t)
    if likely(g, 'issue'):
        g.setfield(*[(b, o+113) for b, o in [get(2)]][0], 8, fld(0, 53, 8))
    # sequence numbers that fit
    if likely(g, 'fits'):
        s1 = g.choice('sow', [0, 4711, 201597])
        for j in range(3):
            g.setfield(get(j)[0], get(j)[1]+12, 18, s1+j)
    typ = [fld(j, 6, 6) for j in range(5)]
    sow = [fld(j, 12, 18) for j in range(3)]
    vals = read(g, get, B2A)
    v = lambda nm: vals[nm][0][0]
    tow = v('sow')*3
    bds_epochs(g, vals)
    g.assume(tow < WEEK)
    sat = sat_of('BDS', 30)
    eph = g.call(N+'decode_bds_b2a', rn, 800, 0, sat, msg)
    ok = And(typ[0] == 10, typ[1] == 11, typ[2] == 30, typ[4] == 40, sow[1] == sow[0]+1, sow[2] == sow[1]+1, (v('iodc') & 255) == v('iode'))
    g.ensure('only when the messages are there, of one issue', Implies(eph is not None, ok))
    if slot is not None:
        g.ensure('issued when the messages are there, of one issue', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    bcnav(g, eph, vals, tow, 1, ('iodc', 'iode', 'tgd_b'))
    g.ensure('integrity', eph.integ == v('integ_b2a')*8+v('integ_b1c'))
    g.ensure('kind', eph.mode == 2)


@contract('N01', fns=[N+x for x in ('decode_bds_b2b', 'decode_bds_cnav_eph1', 'decode_bds_cnav_eph2', 'decode_bds_cnav_clk', 'decode_bds_cnav_sisai', 'set_bds_cnav_time', 'adjweek')], n=300, tmo=100)
def b2b(g):
    mt, = cases(g, 16, mt=[10, 30, 40, 10, 8, 63])
    rn = decoder(g)
    st = state(g, rn, 'bds_cnv3', 18)
    msg = g.buf('msg', 504)
    g.setfield(msg, 12, 6, mt)
    slot = {10: 0, 30: 1, 40: 2}.get(mt)
    get = lambda p: (msg, 0) if p == slot else (st, 512*p)
    fld = lambda p, i, w: g.field(get(p)[0], get(p)[1]+i, w)
    if likely(g, 'complete'):
        for j, t in enumerate((10, 30)):
            if j != slot:
                g.setfield(st, 512*j+12, 6, t)
    if likely(g, 'fits'):
        s1 = g.choice('sow', [0, 4711, 604798])
        for j in range(2):
            g.setfield(get(j)[0], get(j)[1]+18, 20, s1+j)
    typ = [fld(j, 12, 6) for j in range(2)]
    sow = [fld(j, 18, 20) for j in range(2)]
    vals = read(g, get, B2B)
    v = lambda nm: vals[nm][0][0]
    tow = v('sow')
    bds_epochs(g, vals)
    g.assume(tow < WEEK)
    sat = sat_of('BDS', 19)
    eph = g.call(N+'decode_bds_b2b', rn, 800, 0, sat, msg)
    ok = And(typ[0] == 10, typ[1] == 30, sow[1] == sow[0]+1)
    g.ensure('only when the messages are there, of one issue', Implies(eph is not None, ok))
    if slot is not None:
        g.ensure('issued when the messages are there, of one issue', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    bcnav(g, eph, vals, tow, -1, ('integ',))
    g.ensure('kind', eph.mode == 3)


# ---------------------------------------------------------------- BDS D1, D2
D1 = [('svh', T(0, 42, 1), 'u', 1), ('iodc', T(0, 43, 5), 'u', 1), ('sva', T(0, 48, 4), 'u', 1), ('iode', T(0, 287, 5), 'u', 1),
      ('wn', T(0, 60, 13), 'u', 1), ('toc', [(0, 73, 9), (0, 90, 8)], 'u', 8), ('tgd', T(0, 98, 10), 's', 1e-10), ('tgd_b', [(0, 108, 4), (0, 120, 6)], 's', 1e-10),
      ('af2', T(0, 214, 11), 's', P2(66)), ('af0', [(0, 225, 7), (0, 240, 17)], 's', P2(33)), ('af1', [(0, 257, 5), (0, 270, 17)], 's', P2(50)),
      ('deln', [(1, 42, 10), (1, 60, 6)], 's', P2(43)*SC), ('cuc', [(1, 66, 16), (1, 90, 2)], 's', P2(31)), ('M0', [(1, 92, 20), (1, 120, 12)], 's', P2(31)*SC),
      ('e', [(1, 132, 10), (1, 150, 22)], 'u', P2(33)), ('cus', T(1, 180, 18), 's', P2(31)), ('crc', [(1, 198, 4), (1, 210, 14)], 's', P2(6)),
      ('crs', [(1, 224, 8), (1, 240, 10)], 's', P2(6)), ('sqrtA', [(1, 250, 12), (1, 270, 20)], 'u', 1),
      ('toes', [(1, 290, 2), (2, 42, 10), (2, 60, 5)], 'u', 8), ('i0', [(2, 65, 17), (2, 90, 15)], 's', P2(31)*SC), ('cic', [(2, 105, 7), (2, 120, 11)], 's', P2(31)),
      ('OMGd', [(2, 131, 11), (2, 150, 13)], 's', P2(43)*SC), ('cis', [(2, 163, 9), (2, 180, 9)], 's', P2(31)), ('idot', [(2, 189, 13), (2, 210, 1)], 's', P2(43)*SC),
      ('OMG0', [(2, 211, 21), (2, 240, 11)], 's', P2(31)*SC), ('omg', [(2, 251, 11), (2, 270, 21)], 's', P2(31)*SC)]
D2 = [('svh', T(1, 46, 1), 'u', 1), ('iodc', T(1, 47, 5), 'u', 1), ('sva', T(1, 60, 4), 'u', 1), ('iode', T(4, 91, 5), 'u', 1),
      ('wn', T(1, 64, 13), 'u', 1), ('toc', [(1, 77, 5), (1, 90, 12)], 'u', 8), ('tgd', T(1, 102, 10), 's', 1e-10), ('tgd_b', T(1, 120, 10), 's', 1e-10),
      ('af2', [(4, 72, 10), (4, 90, 1)], 's', P2(66)), ('af0', [(3, 100, 12), (3, 120, 12)], 's', P2(33)), ('af1', [(3, 132, 4), (4, 46, 6), (4, 60, 12)], 's', P2(50)),
      ('deln', T(4, 96, 16), 's', P2(43)*SC), ('cuc', [(4, 120, 14), (5, 46, 4)], 's', P2(31)), ('M0', [(5, 50, 2), (5, 60, 22), (5, 90, 8)], 's', P2(31)*SC),
      ('e', [(5, 124, 10), (6, 46, 6), (6, 60, 16)], 'u', P2(33)), ('cus', [(5, 98, 14), (5, 120, 4)], 's', P2(31)), ('crc', [(8, 65, 17), (8, 90, 1)], 's', P2(6)),
      ('crs', T(8, 91, 18), 's', P2(6)), ('sqrtA', [(6, 76, 6), (6, 90, 22), (6, 120, 4)], 'u', 1),
      ('toes', [(7, 80, 2), (7, 90, 15)], 'u', 8), ('i0', [(7, 105, 7), (7, 120, 14), (8, 46, 6), (8, 60, 5)], 's', P2(31)*SC),
      ('cic', [(6, 124, 10), (7, 46, 6), (7, 60, 2)], 's', P2(31)),
      ('OMGd', [(8, 109, 3), (8, 120, 16), (9, 46, 5)], 's', P2(43)*SC), ('cis', T(7, 62, 18), 's', P2(31)), ('idot', [(10, 51, 1), (10, 60, 13)], 's', P2(43)*SC),
      ('OMG0', [(9, 51, 1), (9, 60, 22), (9, 90, 9)], 's', P2(31)*SC), ('omg', [(9, 99, 13), (9, 120, 14), (10, 46, 5)], 's', P2(31)*SC)]
SOW = [(18, 8), (30, 12)]


def bds_legacy(g, eph, lay, vals, s, tow, sat):
    v = lambda nm: vals[nm][0][0]
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, {nm: x for nm, x in vals.items() if nm not in ('wn', 'toc', 'sqrtA')})
    g.ensure('semi-major axis', square(eph.A*P2(-38), s))
    wn, toe, toc = v('wn'), v('toes')*8, v('toc')*8
    wk = nearest(wn, toe, tow)
    g.ensure('toe', at(eph.toe, BDT0, wk, toe))
    g.ensure('toc', at(eph.toc, BDT0, nearest(wn, toc, tow), toc))
    g.ensure('week', eph.week == wk)
    g.ensure('transmission time', at(eph.tot, BDT0, wn, tow))
    g.ensure('kind', eph.mode == 0)


@contract('N01', fns=[N+'decode_bds_d1', N+'getbitu2', N+'getbits2', N+'adjweek'], n=300, tmo=100)
def d1(g):
    sf, pre = cases(g, 17, sf=[1, 2, 3, 4, 5], pre=[0x712, 0x711])
    rn = decoder(g)
    st = state(g, rn, 'bds_d12', 34)
    msg = g.buf('msg', 320)
    g.setfield(msg, 0, 11, pre)
    g.setfield(msg, 15, 3, sf)
    if likely(g, 'complete'):
        for j in range(3):
            g.setfield(st, 320*j+15, 3, j+1)
    get = lambda p: (msg, 0) if p == sf-1 else (st, 320*p)
    if likely(g, 'fits'):
        s1 = g.choice('sow', [0, 4714, 604780])
        for j in range(3):
            b, o = get(j)
            g.setfield(b, o+18, 8, (s1+6*j) >> 12)
            g.setfield(b, o+30, 12, (s1+6*j) & 4095)
    b, o = get(1)
    g.setfield(b, o+132, 1, 0)
    old = [g.field(st, 320*j+15, 3) for j in range(3)]
    sow = [value(g, get, [(j, i, w) for i, w in SOW]) for j in range(3)]
    vals = read(g, get, D1)
    s = forms(g, get, [(1, 250, 12), (1, 270, 20)])
    g.assume(And(sow[0] < WEEK, vals['toes'][0][0]*8 < WEEK, vals['toc'][0][0]*8 < WEEK))
    sat = sat_of('BDS', 35)
    with g.stub('rawnav:RawNav.urai2sva', lambda self, u, sys=None: u):
        eph = g.call(N+'decode_bds_d1', rn, 800, 0, sat, msg)
    ok = And(pre == 0x712, *[True if j == sf-1 else old[j] == j+1 for j in range(3)], sow[1] == sow[0]+6, sow[2] == sow[1]+6)
    g.ensure('only with the three subframes of one frame', Implies(eph is not None, ok))
    if sf <= 3:
        g.ensure('issued with the three subframes of one frame', Iff(eph is not None, ok))
    if eph is not None:
        bds_legacy(g, eph, D1, vals, s, sow[0], sat)
        g.ensure('orbit kind', eph.flag == 1)


@contract('N01', fns=[N+'decode_bds_d2', N+'getbitu2', N+'getbits2', N+'getbitu3', N+'getbits3', N+'adjweek'], n=300, tmo=100)
def d2(g):
    pg, pre, fr = cases(g, 18, pg=[1, 2, 5, 6, 10, 11, 0], pre=[0x712, 0x711], fr=[1, 2])
    rn = decoder(g)
    st = state(g, rn, 'bds_d12', 2)
    msg = g.buf('msg', 320)
    g.setfield(msg, 0, 11, pre)
    g.setfield(msg, 15, 3, fr)
    g.setfield(msg, 42, 4, pg)
    get = lambda p: (msg, 0) if p == pg else (st, 160*(p-1))
    if likely(g, 'complete'):
        s1 = g.choice('sow', [0, 4714, 604770])
        for j in range(1, 11):
            b, o = get(j)
            g.setfield(b, o+42, 4, j)
            g.setfield(b, o+18, 8, (s1+3*j) >> 12)
            g.setfield(b, o+30, 12, (s1+3*j) & 4095)
    b, o = get(5)
    g.setfield(b, o+124, 1, 0)
    used = [1, 3, 4, 5, 6, 7, 8, 9, 10]             # page 2 has no orbit
    old = {j: g.field(st, 160*(j-1)+42, 4) for j in used}
    sow = {j: value(g, get, [(j, i, w) for i, w in SOW]) for j in used}
    vals = read(g, get, D2)
    s = forms(g, get, [(6, 76, 6), (6, 90, 22), (6, 120, 4)])
    g.assume(And(sow[1] < WEEK, vals['toes'][0][0]*8 < WEEK, vals['toc'][0][0]*8 < WEEK))
    sat = sat_of('BDS', 3)
    with g.stub('rawnav:RawNav.urai2sva', lambda self, u, sys=None: u):
        eph = g.call(N+'decode_bds_d2', rn, 800, 0, sat, msg)
    ok = And(pre == 0x712, fr == 1, 1 <= pg <= 10, *[True if j == pg else old[j] == j for j in used], *[sow[j] == sow[1]+3*(j-1) for j in used])
    g.ensure('issued with the ten pages of one frame', Iff(eph is not None, ok))
    if eph is not None:
        bds_legacy(g, eph, D2, vals, s, sow[1], sat)
        g.ensure('orbit kind', eph.flag == 2)


# ---------------------------------------------------------------- NavIC
IRN = seq(0, 30, ('wn', 10, 'u', 1), ('af0', 22, 's', P2(31)), ('af1', 16, 's', P2(43)), ('af2', 8, 's', P2(55)), ('sva', 4, 'u', 1)) + \
    seq(0, 90, ('toc', 16, 'u', 16), ('tgd', 8, 's', P2(31)), ('deln', 22, 's', P2(41)*SC), ('iode', 8, 'u', 1)) + \
    seq(0, 154, ('svh', 2, 'u', 1), ('cuc', 15, 's', P2(28)), ('cus', 15, 's', P2(28)), ('cic', 15, 's', P2(28)), ('cis', 15, 's', P2(28)),
        ('crc', 15, 's', P2(4)), ('crs', 15, 's', P2(4)), ('idot', 14, 's', P2(43)*SC)) + \
    seq(1, 30, ('M0', 32, 's', P2(31)*SC), ('toes', 16, 'u', 16), ('e', 32, 'u', P2(33)), ('sqrtA', 32, 'u', 1), ('OMG0', 32, 's', P2(31)*SC),
        ('omg', 32, 's', P2(31)*SC), ('OMGd', 22, 's', P2(41)*SC), ('i0', 32, 's', P2(31)*SC))


@contract('N01', fns=[N+'decode_irn_lnav', N+'adjweek'], n=300, tmo=100)
def irn_lnav(g):
    sf, = cases(g, 19, sf=[0, 1, 2, 3])
    rn = decoder(g)
    st = state(g, rn, 'irn_nav', 8)
    msg = g.buf('msg', 320)
    g.setfield(msg, 27, 2, sf)
    if likely(g, 'complete'):
        for j in range(2):
            g.setfield(st, 320*j+27, 2, j)
    get = lambda p: (msg, 0) if p == sf else (st, 320*p)
    if likely(g, 'fits'):
        s1 = g.choice('towc', [1, 4714, 50398])
        for j in range(2):
            g.setfield(get(j)[0], get(j)[1]+8, 17, s1+j)
    old = [g.field(st, 320*j+27, 2) for j in range(2)]
    towc = [g.field(get(j)[0], get(j)[1]+8, 17) for j in range(2)]
    vals = read(g, get, IRN)
    v = lambda nm: vals[nm][0][0]
    off = g.int('dweek', -511, 511)
    tow, toe, toc = towc[0]*12, v('toes')*16, v('toc')*16
    g.assume(And(tow < WEEK, toe < WEEK, toc < WEEK))
    wn = v('wn')+1024
    sat = sat_of('IRN', 9)
    with g.stub('rawnav:RawNav.urai2sva', lambda self, u, sys=None: u):
        eph = g.call(N+'decode_irn_lnav', rn, wn+off, 0, sat, msg)
    ok = And(*[True if j == sf else old[j] == j for j in range(2)], towc[1] == towc[0]+1)
    g.ensure('only with the two subframes of one frame', Implies(eph is not None, ok))
    if sf < 2:
        g.ensure('issued with the two subframes of one frame', Iff(eph is not None, ok))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, {nm: x for nm, x in vals.items() if nm not in ('wn', 'toc', 'sqrtA')})
    g.ensure('issue', eph.iodc == v('iode'))
    g.ensure('semi-major axis', square(eph.A*P2(-38), [v('sqrtA')]))
    wk = nearest(wn, toe, tow)
    g.ensure('toe', at(eph.toe, GPS0, wk, toe))
    g.ensure('toc', at(eph.toc, GPS0, nearest(wn, toc, tow), toc))
    g.ensure('week', eph.week == wk)
    g.ensure('transmission time', at(eph.tot, GPS0, wn, tow))
    g.ensure('kind', eph.mode == 0)


L1NAV = seq(0, 0, ('toi', 9, 'u', 18))+seq(0, 52, ('wn', 13, 'u', 1), ('itow', 8, 'u', 7200), (None, 1, 'u', 1), ('svh', 1, 'u', 1), ('iode', 4, 'u', 1), ('sva', 5, 's', 1),
    ('toes', 11, 'u', 300), KEP1[0], ('Adot', 26, 's', P2(21)), ('deln', 19, 's', P2(44)*SC), *KEP1[3:], ('OMG0', 33, 's', P2(32)*SC), ('OMGd', 25, 's', P2(44)*SC),
    ('i0', 33, 's', P2(32)*SC), ('idot', 15, 's', P2(44)*SC), *HARM, ('af0', 29, 's', P2(35)), ('af1', 22, 's', P2(50)), ('af2', 15, 's', P2(66)),
    ('tgd', 12, 's', P2(35)), ('isc5', 12, 's', P2(35)), ('isc4', 12, 's', P2(35)), ('integ', 1, 'u', 1), (None, 3, 'u', 1), ('prn', 6, 'u', 1))


@contract('N01', fns=[N+'decode_irn_l1nav', N+'adjweek'], n=200, tmo=100)
def irn_l1nav(g):
    mid, = cases(g, 20, mid=[0, 5, 6, 8, 10, 17])
    rn = decoder(g)
    msg = g.buf('msg', 1536)
    g.setfield(msg, 1252, 6, mid)
    if likely(g, 'to us'):
        g.setfield(msg, 52+22+148+294+106, 6, 9)
    vals = read(g, lambda p: (msg, 0), L1NAV)
    v = lambda nm: vals[nm][0][0]
    tow, toe = v('itow')*7200+v('toi')*18, v('toes')*300
    g.assume(And(tow < WEEK, toe < WEEK))
    sat = sat_of('IRN', 9)
    with g.stub('rawnav:RawNav.urai2sva', lambda self, u, sys=None: u):
        eph = g.call(N+'decode_irn_l1nav', rn, 2300, 0, sat, msg)
    g.ensure('issued when it comes from the satellite', Iff(eph is not None, v('prn') == 9))
    if eph is None:
        return
    g.ensure('satellite', eph.sat == sat)
    agree(g, eph, {nm: x for nm, x in vals.items() if nm not in ('toi', 'wn', 'itow', 'dA', 'prn', 'isc4', 'isc5')})
    g.ensure('issue', eph.iodc == v('iode'))
    g.ensure('semi-major axis', close((eph.A-42164200)/P2(9), v('dA')))
    g.ensure('group delays', And(*[close(eph.isc[k]/P2(35), v('isc%d' % k)) if k > 3 else eph.isc[k] == 0 for k in range(6)]))
    wk = nearest(v('wn'), toe, tow)
    g.ensure('toe', at(eph.toe, GST0, wk, toe))
    g.ensure('toc', at(eph.toc, GST0, wk, toe))
    g.ensure('transmission time', at(eph.tot, GST0, v('wn'), tow))


# ---------------------------------------------------------------- GLONASS
def signed(g, get, p, i, w):
    """sign and magnitude"""
    m = value(g, get, [(p, i+1, w-1)])
    return Ite(value(g, get, [(p, i, 1)]) == 1, -m, m)


FDMA = [('vel', 0, 0, 21, 24, P2(20)*1e3), ('acc', 0, 0, 45, 5, P2(30)*1e3), ('pos', 0, 0, 50, 27, P2(11)*1e3),
        ('vel', 1, 1, 21, 24, P2(20)*1e3), ('acc', 1, 1, 45, 5, P2(30)*1e3), ('pos', 1, 1, 50, 27, P2(11)*1e3),
        ('vel', 2, 2, 21, 24, P2(20)*1e3), ('acc', 2, 2, 45, 5, P2(30)*1e3), ('pos', 2, 2, 50, 27, P2(11)*1e3),
        ('gamn', None, 2, 6, 11, P2(40)), ('taun', None, 3, 5, 22, P2(30)), ('dtaun', None, 3, 27, 5, P2(30))]
FIELDS = [('svh', 1, 5, 3), ('age', 3, 32, 5), ('sva', 3, 52, 4), ('iode', 1, 9, 7)]
FLAGS = [(3, 75, 2, 7), (3, 51, 1, 6), (2, 5, 1, 5), (1, 8, 1, 4), (0, 7, 2, 2), (2, 18, 2, 0)]


def near_tod(tod, ref):
    """time of day next to a reference time of day"""
    return Ite(tod < ref-DAY//2, tod+DAY, Ite(tod > ref+DAY//2, tod-DAY, tod))


@contract('N01', fns=[N+'decode_glo_fdma', N+'getbitg', 'gnss:copy_buff'], n=400, tmo=100)
def glo(g):
    sid, tow = cases(g, 21, sid=[4, 2, 1, 5, 0], tow=[8*3600+6, 21*3600+604800-86400, 85399])
    rn = decoder(g)
    st = g.buf('state', 640)
    rn.glo_ca[13] = st
    msg = g.buf('msg', 96)
    g.setfield(msg, 1, 4, sid)
    if likely(g, 'complete'):
        for j in range(5):
            if j < 4 or g.choice('fifth', [0, 1]):
                g.setfield(st, 96*j+1, 4, j+1)
            g.setfield(st, 480+32*j, 32, tow-2*(sid-1-j))
    get = lambda p: (msg, 0) if p == sid-1 else (st, 96*p)
    f = lambda p, i, w: value(g, get, [(p, i, w)])
    old = [g.field(st, 96*j+1, 4) for j in range(5)]
    t = [tow if j == sid-1 else g.field(st, 480+32*j, 32) for j in range(4)]
    want = [(nm, k, signed(g, get, p, i, w), q) for nm, k, p, i, w, q in FDMA]
    fl = [(nm, f(*x)) for nm, *x in FIELDS]
    flags = sum(f(p, i, w)*2**s for p, i, w, s in FLAGS)
    late = [signed(g, get, 4, 16, 32), signed(g, get, 4, 54, 22)]
    tk, tb = f(0, 9, 5)*3600+f(0, 14, 6)*60+f(0, 20, 1)*30, f(1, 9, 7)*900
    id5 = 5 if sid == 5 else old[4]
    g.assume(And(tk < DAY, tb < DAY))
    # time scales have their own contracts (T02)
    sat = sat_of('GLO', 13)
    with g.stub('gnss:utc2gpst', lambda t: t):
        h = g.call(N+'decode_glo_fdma', rn, 2300, tow, sat, msg, 3)
    ok = And(1 <= sid <= 5, *[True if j == sid-1 else old[j] == j+1 for j in range(4)], *[t[j+1]-t[j] == 2 for j in range(3)])
    g.ensure('issued with four strings of one frame', Iff(h is not None, ok))
    if h is None:
        return
    g.ensure('satellite', And(h.sat == sat, h.frq == 3, h.mode == 0))
    for nm, k, v, q in want:
        x = getattr(h, nm)
        g.ensure(nm, close((x if k is None else x[k])/q, v))
    for nm, v in fl:
        g.ensure(nm, getattr(h, nm) == v)
    g.ensure('flags', h.flag == flags)
    if id5 == 5:
        g.ensure('system time', And(close(h.tau_c/P2(31), late[0]), close(h.tau_gps/P2(30), late[1])))
    day = tow//DAY*DAY
    # Moscow time is three hours ahead
    g.ensure('toe', at(h.toe, GPS0, 2300, day+near_tod(tb-10800, tow-day)))
    g.ensure('frame time', at(h.tof, GPS0, 2300, day+near_tod(tk-10800, tow-day)))


@contract('N01', fns=['rawnav:gep2time'], n=400)
def glonass_day(g):
    n4, nt, sod = g.int('n4', 1, 26), g.int('nt', 1, 1461), g.real('sod', 0, 86400, open_hi=True)
    with g.stub('gnss:utc2gpst', lambda t: t):
        t = g.call('rawnav:gep2time', n4, nt, sod)
    g.ensure('day of the four-year interval, Moscow time', close(t.time-820454400-((n4-1)*1461+nt-1)*DAY+10800+t.sec, sod, 1e-9, rel=False))
    g.ensure('seconds and fraction', And(0 <= t.sec, t.sec < 1))


def cdma_layout(ty):
    b = 6+(32 if ty == 1 else 31)
    mt10 = [('taun', None, 65, 32, P2(38)), ('gamn', None, 97, 19, P2(48)), ('beta', None, 116, 15, P2(57)), ('tau_c', None, 131, 40, P2(31)), ('dtau_c', None, 171, 13, P2(49)),
            ('urai', 0, 55, 5, 1), ('urai', 1, 60, 5, 1)]
    mt11 = [('pos', 0, 0, 40, P2(20)*1e3), ('pos', 1, 40, 40, P2(20)*1e3), ('pos', 2, 80, 40, P2(20)*1e3), ('vel', 0, 120, 35, P2(30)*1e3), ('vel', 1, 155, 35, P2(30)*1e3)]
    mt12 = [('vel', 2, 0, 35, P2(30)*1e3), ('acc', 0, 35, 15, P2(39)*1e3), ('acc', 1, 50, 15, P2(39)*1e3), ('acc', 2, 65, 15, P2(39)*1e3),
            ('dpos', 0, 80, 13, P2(10)), ('dpos', 1, 93, 13, P2(10)), ('dpos', 2, 106, 13, P2(10)), ('isc', 1 if ty == 1 else 2, 119, 18, P2(38)), ('tau_gps', None, 137, 30, P2(38))]
    return [(nm, k, p, b+i, w, q) for p, l in enumerate((mt10, mt11, mt12)) for nm, k, i, w, q in l
            # the string of L1OC ends within this field (bits of a later version of the ICD)
            if not (ty == 1 and nm == 'vel' and k == 1)], b


@contract('N01', fns=[N+'decode_glo_cdma', N+'decode_glo_l1oc', N+'decode_glo_l3oc', N+'getbitg', 'gnss:copy_buff'], n=300, tmo=100)
def glo_cdma(g):
    (ty, mt), pre = cases(g, 22, kind=[(ty, mt) for ty in (1, 3) for mt in (10, 11, 12, 16, 13)], pre=[True, False])
    rn = decoder(g)
    sat = sat_of('GLO', 4)
    st = g.buf('state', 1280)
    (rn.glo_l1oc if ty == 1 else rn.glo_l3oc)[sat] = st
    s0, n = (12, 222) if ty == 1 else (20, 256)
    msg = g.buf('msg', 304)
    g.setfield(msg, 0, s0, (0x5f1 if ty == 1 else 0x494e) ^ (0 if pre else 8))
    g.setfield(msg, s0, 6, mt)
    if likely(g, 'complete'):
        for j in range(3):
            g.setfield(st, 256*j, 6, 10+j)
    slot = {10: 0, 11: 1, 12: 2, 16: 3}.get(mt)
    get = lambda p: (msg, s0) if p == slot else (st, 256*p)
    f = lambda p, i, w: value(g, get, [(p, i, w)])
    old = [g.field(st, 256*j, 6) for j in range(3)]
    lay, b = cdma_layout(ty)
    want = [(nm, k, signed(g, get, p, i, w), q) for nm, k, p, i, w, q in lay]
    N4, Nt, M, tb, Ee, Et, Re, Rt = [f(0, b+i, w) for i, w in ((0, 5), (5, 11), (16, 3), (25, 10), (35, 8), (43, 8), (51, 2), (53, 2))]
    if ty == 1:
        svh, valid, flag, ts = [f(0, 6+i, w) for i, w in ((6, 1), (7, 1), (12, 1), (16, 16))]
    else:
        ts, svh, valid, flag = [f(0, 6+i, w) for i, w in ((0, 15), (21, 1), (22, 1), (27, 1))]
    T = resolve('gnss:gtime_t')
    fn = N+('decode_glo_l1oc' if ty == 1 else 'decode_glo_l3oc')
    with g.stub('rawnav:gep2time', lambda n4, nt, sod: T((n4*2048+nt)*1000000, sod)), g.stub('gnss:time2gpst', lambda t: (0, t.sec)):
        h = g.call(fn, rn, 2300, 0, sat, msg)
    ok = And(pre, *[True if j == slot else old[j] == 10+j for j in range(3)])
    g.ensure('only with the three strings', Implies(h is not None, ok))
    if slot in (0, 1, 2):
        g.ensure('issued with the three strings', Iff(h is not None, ok))
    if h is None:
        return
    g.ensure('satellite', And(h.sat == sat, h.mode == ty))
    for nm, k, v, q in want:
        x = getattr(h, nm)
        g.ensure(nm, close((x if k is None else x[k])/q, v))
    day = (N4*2048+Nt)*1000000
    g.ensure('toe', And(h.toe.time == day, h.toe.sec == tb*90, h.toes == tb*90))
    g.ensure('frame time', And(h.tof.time == day, h.tof.sec == ts*(2 if ty == 1 else 3)))
    g.ensure('kind and health', And(h.iode == tb, h.svh == svh, h.status == valid, h.flag == flag, h.sattype == M, h.src == Re*4+Rt))
    g.ensure('age', And(h.aode*4 == Ee, h.aodc*4 == Et))


# ---------------------------------------------------------------- SBAS
SBS = seq(0, 22, ('t0', 13, 'u', 16), ('ura', 4, 'u', 1), ('pos0', 30, 's', .08), ('pos1', 30, 's', .08), ('pos2', 25, 's', .4), ('vel0', 17, 's', 6.25e-4), ('vel1', 17, 's', 6.25e-4),
          ('vel2', 18, 's', 4e-3), ('acc0', 10, 's', 1.25e-5), ('acc1', 10, 's', 1.25e-5), ('acc2', 10, 's', 6.25e-5), ('af0', 12, 's', P2(31)), ('af1', 8, 's', P2(40)))
URA_T = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096]


@contract('N01', fns=[N+'decode_sbs_l1', 'gnss:tod2tow', 'gnss:adjtime'], n=300, tmo=60)
def sbs(g):
    pre, mt, tow, ura = cases(g, 23, pre=[0x53, 0x9a, 0xc6, 0x53, 0x35], mt=[9, 9, 9, 7], tow=[30, 86399, 43200, 3*86400+43100, 604799], ura=list(range(16)))
    rn = decoder(g)
    msg = g.buf('msg', 256)
    g.setfield(msg, 0, 8, pre)
    g.setfield(msg, 8, 6, mt)
    g.setfield(msg, 35, 4, ura)
    vals = read(g, lambda p: (msg, 0), SBS)
    iod, t0 = g.field(msg, 14, 8), g.field(msg, 22, 13)*16
    g.assume(t0 < DAY)
    sat = sat_of('SBS', 129)
    h = g.call(N+'decode_sbs_l1', rn, 2300, tow, sat, msg)
    g.ensure('issued for the message of the orbit', Iff(h is not None, And(pre in (0x53, 0x9a, 0xc6), mt == 9)))
    if h is None:
        return
    for nm, ([v], q) in vals.items():
        if nm[:3] in ('pos', 'vel', 'acc'):
            g.ensure(nm[:3], close(getattr(h, nm[:3])[int(nm[3])]/q, v))
        elif nm[:2] == 'af':
            g.ensure(nm, close(getattr(h, nm)/q, v))
    g.ensure('satellite and issue', And(h.sat == sat, h.iodn == iod))
    g.ensure('health', h.svh == (1 if ura == 15 else 0))
    if ura < 15:
        g.ensure('accuracy', h.sva == URA_T[ura])
    ref = GPS0+2300*WEEK+tow
    g.ensure('epoch', And((h.t0.time-GPS0-t0) % DAY == 0, h.t0.time-ref <= DAY//2, ref-h.t0.time <= DAY//2, h.t0.sec == 0))
    g.ensure('reception', at(h.tof, GPS0, 2300, tow))


# ---------------------------------------------------------------- accuracy indices, message pieces
@contract('N01', fns=[N+'urai2sva', N+'sisa2sva'], n=300)
def accuracy(g):
    rn = decoder(g)
    u = g.choice('urai', list(range(16)))
    nominal = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192]
    g.ensure('URA', g.call(N+'urai2sva', rn, u) == nominal[u])
    s = g.int('sisa', 0, 255)
    v = g.call(N+'sisa2sva', rn, s)
    cm = Ite(s < 50, s, Ite(s < 75, 50+(s-50)*2, Ite(s < 100, 100+(s-75)*4, 200+(s-100)*16)))
    if s < 126:
        g.ensure('SISA in centimetres', close(v*100, cm))
    elif s == 255:
        g.ensure('no accuracy prediction', v < 0)
    else:
        g.ensure('spare', isnan(v))


@contract('N01', fns=['rawnav:rcvDec.init_sig_tab'], n=60, tmo=60)
def signal_table(g):
    t = g.choice('systems', ['G', 'R', 'E', 'C', 'J', 'I', 'S', 'GREC', 'GRECJIS'])
    d = resolve('rawnav:rcvDec').__new__(resolve('rawnav:rcvDec'))
    tab = g.call('rawnav:rcvDec.init_sig_tab', d, t)
    sysc = [resolve('gnss:char2sys')(c) for c in t]
    g.ensure('systems', set(tab) <= set(sysc))
    for sy, kinds in tab.items():
        ref = None
        for ty, sigs in kinds.items():
            g.ensure('kind of observable and system', And(*[And(s.sys == sy, s.typ == ty) for s in sigs]))
            g.ensure('no signal twice', len({int(s.sig) for s in sigs}) == len(sigs))
            names = [int(s.sig) for s in sigs]
            ref = ref or names
            g.ensure('the same signals for each kind', names == ref)
