"""A03 QZNMA: a navigation message counts as authentic only if the signature received for it covers it."""
import os
import re
import shutil
import tempfile
from binascii import hexlify
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, Implies, close, resolve
from .f_common import cases, G
from .A01_osnma_keys import eqb, cat, one, b

Q = 'qznma:qznma.'
LNAV, CNAV, CNAV2, FNAV, INAV = 1, 2, 3, 4, 5
W = 604800
SAT = {G.GPS: 7, G.GAL: 32+11, G.QZS: 32+36+3}


def nma(g):
    d = resolve('qznma:qznma')()
    d.monlevel = 0
    g.lift(d, 1)
    return d


def same(g, x, i, y, j, n):
    """n bits of x from bit i are those of y from bit j"""
    out, k = [], 0
    while k < n:
        w = min(32, n-k)
        out.append(g.field(x, i+k, w) == g.field(y, j+k, w))
        k += w
    return And(*out)


def zero(g, x, i, n):
    out, k = [], 0
    while k < n:
        w = min(32, n-k)
        out.append(g.field(x, i+k, w) == 0)
        k += w
    return And(*out)


# --------------------------------------------------------------- signature parts
PART = {LNAV: (300, 320, 180), CNAV: (300, 304, 236), CNAV2: (2000, 2000, 234)}


def payload(g, mode, m):
    """bits of the signature in one message: list of (position, length)"""
    if mode == LNAV:
        return [(32*2+12, 14)]+[(32*k+2, 24) for k in range(3, 9)]+[(32*9+2, 22)]
    return [(40, 236)] if mode == CNAV else [(1268, 234)]


def setpart(g, mode, m, sid):
    g.setfield(m, {LNAV: 32*2+2+8, CNAV: 38, CNAV2: 1266}[mode], 2, sid)


SEQS = ['123', '312', '2312', '13123', '12123', '1223', '1123', '1323', '10203', '23', '132', '1213', '12', '321', '0123', '2', '3123', '1231323123']


@contract('A03', fns=[Q+'gen_rds', 'gnss:copy_buff', 'qznma:NavParam.__init__'], n=400, tmo=120, bytearrays=True)
def signature(g):
    """a signature is made up of the three parts received one after the other"""
    mode, s = cases(g, 54, mode=[LNAV, CNAV, CNAV2], seq=SEQS)
    d = nma(g)
    sat = SAT[G.QZS]
    d.mask, d.rds, d.npr = {sat: 0}, {sat: g.buf('old', 89*8)}, {sat: None}
    run = []
    nb = {LNAV: 320, CNAV: 304, CNAV2: 2000}[mode]
    for k, c in enumerate(s):
        sid = int(c)
        m = g.buf('m%d' % k, nb)
        setpart(g, mode, m, sid)
        r = g.call(Q+'gen_rds', d, sat, mode, m)
        if sid == 1:
            run = [m]
        elif sid and len(run) >= sid-1:
            run = run[:sid-1]+[m] if sid == len(run)+1 or sid == len(run) else []
        elif sid:
            run = []
        if len(run) < 3:
            g.ensure('not before all three parts are there', r is None)
            continue
        w = g.zbuf('w%d' % k, 720)
        o = 0
        for x in run:
            for p, n in payload(g, mode, x):
                for q in range(0, n, 32):
                    z = min(32, n-q)
                    g.setfield(w, o, z, g.field(x, p+q, z))
                    o += z
        g.ensure('all three parts', r is not None)
        g.ensure('key, signature and salt', And(r.keyid == g.field(w, 0, 8), same(g, r.ds, 0, w, 8, 512), r.salt == g.field(w, 520, 16), r.mt == mode, len(r.ds) == 64))
        break


# ----------------------------------------------------------- messages as signed
KEEP = {  # bits which the signature covers, relative to the 24 bits of each word
    G.QZS: [[(0, 22), (0, 17)]+[(0, 24)]*7+[(0, 22)]]*3,
    G.GPS: [[(0, 8, 22, 24), (0, 22)]+[(0, 24)]*7+[(0, 22)], [(0, 8, 22, 24), (0, 22)]+[(0, 24)]*7+[(0, 17)], [(0, 8, 22, 24), (0, 22)]+[(0, 24)]*7+[(0, 22)]]}


@contract('A03', fns=[Q+'lnav_to_mnav'], n=200, bytearrays=True)
def lnav(g):
    sys = g.choice('sys', [G.QZS, G.GPS])
    d = nma(g)
    m = g.buf('msg', 960)
    r = g.call(Q+'lnav_to_mnav', d, m, sys)
    g.ensure('length', And(len(r) == 113, zero(g, r, 900, 4)))
    for sid in range(3):
        for k in range(10):
            kp = KEEP[sys][sid][k]
            for q in range(30):
                on = any(a <= q < c for a, c in zip(kp[::2], kp[1::2]))
                g.ensure('covered bits' if on else 'bits left out', Iff(g.bitat(r, sid*300+30*k+q), g.bitat(m, sid*320+32*k+2+q) if on else False))


def mask(words):
    """positions of the bits kept by masks of 32 bits"""
    return [32*k+q for k, w in enumerate(words) for q in range(32) if w >> (31-q) & 1]


CN = {G.QZS: [[(0, 8), (14, 37), (38, 271), (272, 276)], [(0, 8), (14, 37), (38, 276)], [(0, 8), (14, 37), (38, 127)]],
      G.GPS: [[(0, 14), (20, 276)], [(0, 14), (20, 276)], [(0, 14), (20, 127)]]}


@contract('A03', fns=[Q+'cnav_to_mnav'], n=200, bytearrays=True)
def cnav(g):
    sys = g.choice('sys', [G.QZS, G.GPS])
    d = nma(g)
    m = g.buf('msg', 960)
    r = g.call(Q+'cnav_to_mnav', d, m, sys)
    g.ensure('length', And(len(r) == 113, zero(g, r, 900, 4)))
    for sid in range(3):
        for q in range(300):
            on = any(a <= q < c for a, c in CN[sys][sid])
            g.ensure('covered bits' if on else 'bits left out', Iff(g.bitat(r, sid*300+q), g.bitat(m, sid*304+q) if on else False))


@contract('A03', fns=[Q+'cnav2_to_mnav'], n=200, bytearrays=True)
def cnav2(g):
    d = nma(g)
    m = g.buf('msg', 1800)
    toi = g.int('toi', 0, 399)
    r = g.call(Q+'cnav2_to_mnav', d, toi, m)
    g.ensure('length', And(len(r) == 77, zero(g, r, 585, 31)))
    g.ensure('time', g.field(r, 0, 9) == toi)
    for q in range(576):
        on = q not in (32, 32*17+21)
        g.ensure('covered bits' if on else 'bits left out', Iff(g.bitat(r, 9+q), g.bitat(m, 52+q) if on else False))


@contract('A03', fns=[Q+'fnav_to_mnav', Q+'inav_to_mnav'], n=200, bytearrays=True)
def galileo(g):
    d = nma(g)
    m = g.buf('msg', 992)
    r = g.call(Q+'fnav_to_mnav', d, m)
    g.ensure('length', len(r) == 122)
    for sid in range(4):
        for q in range(244):
            on = q < 214 or q >= 238
            g.ensure('covered bits' if on else 'bits left out', Iff(g.bitat(r, sid*244+q), g.bitat(m, sid*248+q) if on else False))
    m = g.buf('inav', 640)
    r = g.call(Q+'inav_to_mnav', d, m)
    g.ensure('I/NAV words', And(len(r) == 80, same(g, r, 0, m, 0, 640), r is not m))


# ------------------------------------------------------------ signed by L6 messages
TOW = {LNAV: ([30, 330, 630], 17, 1, 100800), CNAV: ([20, 320, 620], 17, 1, 100800), FNAV: ([167, 244+194, 488+186, 732+189], 20, 10, W), INAV: ([597], 20, 0, W)}
NB = {LNAV: 113, CNAV: 113, FNAV: 122, INAV: 80}


@contract('A03', fns=[Q+'decode_gnss_rds', Q+'svid2sat'], n=400, tmo=120, bytearrays=True)
def request(g):
    """the stored message of that satellite, kind and issue, at the time given"""
    mode, have, who = cases(g, 32, mode=[LNAV, CNAV, FNAV, INAV], have=['all', 'all', 'no sat', 'no issue', 'no kind'], who=['same', 'same', 'other', 'none'])
    d = nma(g)
    sys = G.GPS if mode <= 3 else G.GAL
    prn = 7 if sys == G.GPS else 11
    sat = SAT[sys]
    m = g.buf('msg', 1300)
    i = [49, 49+605][have == 'all' and who == 'same' and g.choice('second', [0, 1])]
    svid = prn+(0 if sys == G.GPS else 64)
    sv = svid if who == 'same' else g.choice('sv', [svid+1, 64, (svid+64) % 128] if g.symbolic else [0, 6, 8, 33, 64, 74, 76, 101, 127, 203, 255, (svid+64) % 128])
    if who == 'none':
        sv = [0, 203, 255][mode % 3]
    g.setfield(m, i+24, 8, sv)
    mt = mode if have != 'no kind' else {LNAV: CNAV, CNAV: LNAV, FNAV: INAV, INAV: FNAV}[mode]
    g.setfield(m, i+32, 4, mt)
    iode = [0, 85, 1023][mode % 3] if g.symbolic else g.choice('iode', [0, 85, 1023])
    g.setfield(m, i+36, 11, iode if have != 'no issue' else iode ^ 1)
    p, w, step, wrap = TOW[mode]
    g.assume(g.field(m, i+4, 20) < wrap)
    nm = resolve('qznma:NavMsg')(sys, mode)
    nm.msg = g.buf('nav', 124*8 if mode == FNAV else 80*8 if mode == INAV else 120*8)
    d.navmsg = {} if have == 'no sat' else {sat: {iode: {mode: nm}}}
    g.lift(nm, 1)
    seen = []
    F = {LNAV: 'lnav', CNAV: 'cnav', FNAV: 'fnav', INAV: 'inav'}[mode]+'_to_mnav'
    base = g.buf('base', NB[mode]*8)

    def conv(self, msg, sys=None):
        seen.append((msg, sys))
        return base[0:NB[mode]]
    with g.stub(Q+F, conv):
        npr, nav = g.call(Q+'decode_gnss_rds', d, 1000, m, i)
    if have != 'all' or sv != svid:
        g.ensure('no such message', And(npr is None, nav is None))
        return
    for k, o, n in (('nid', 0, 4), ('rtow', 4, 20), ('svid', 24, 8), ('mt', 32, 4), ('iode1', 36, 11), ('iode2', 47, 11), ('iodc', 58, 11), ('keyid', 69, 8), ('salt', 589, 16)):
        g.ensure('parameter '+k, getattr(npr, k) == g.field(m, i+o, n))
    g.ensure('signature', And(len(npr.ds) == 64, same(g, npr.ds, 0, m, i+77, 512)))
    g.ensure('message', And(len(seen) == 1, seen[0][0] is nm.msg, mode > 3 or seen[0][1] == G.GPS))
    at = 0
    for j, q in enumerate(p):
        g.ensure('bits between the times', same(g, nav, at, base, at, q-at))
        g.ensure('times', g.field(nav, q, w) == (g.field(m, i+4, 20)+j*step) % wrap)
        at = q+w
    g.ensure('bits after the times', same(g, nav, at, base, at, NB[mode]*8-at))


@contract('A03', fns=[Q+'svid2sat'], n=256)
def satellites(g):
    d = nma(g)
    v = g.choice('svid', range(256))
    r = g.call(Q+'svid2sat', d, v)
    p2s = resolve('gnss:prn2sat')
    w = v if 1 <= v <= 32 else p2s(G.GAL, v-64) if 65 <= v <= 100 else p2s(G.QZS, v) if 193 <= v <= 202 else None
    if w is not None:
        g.ensure('satellite', r == w)
    elif not 128 <= v <= 192:
        g.ensure('no satellite', r == 0)


class Keys:
    """a folder of public keys 3 and 200"""

    def __init__(self, g, d, valid):
        self.g, self.d, self.valid, self.seen = g, d, valid, []

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='qzk')
        for k in (3, 200):
            open('%s/%03d.der' % (self.dir, k), 'w').close()
        self.d.pubk_bdir = self.dir
        me = self

        class Key:
            def __init__(self, n):
                self.n = n

            def verify(self, s, t, alg):
                me.seen.append((self.n, s, t))
                if not me.valid[len(me.seen)-1]:
                    raise resolve('qznma:InvalidSignature')()

        def load(path):
            if not os.path.exists(path):
                raise FileNotFoundError(path)
            return Key(int(re.search(r'(\d+)\.der$', path)[1]))
        self.s = [self.g.stub('qznma:load_pubkey', load), self.g.stub('qznma:raw2der', lambda s: s)]
        for x in self.s:
            x.__enter__()
        return self

    def __exit__(self, *a):
        for x in self.s:
            x.__exit__(*a)
        shutil.rmtree(self.dir)


KID = [[3, 3], [3, 200], [200, 3], [7, 3], [3, 7], [7, 200]]


@contract('A03', fns=[Q+'verify_gnss_nav'], n=300, tmo=120, bytearrays=True)
def gnss(g):
    """the signature covers parameters, message and salt, and is checked with the key of its number"""
    mode, kid, valid = cases(g, 30, mode=[LNAV, CNAV, CNAV2, FNAV, INAV], kid=KID, valid=[[1, 1], [0, 1], [1, 0]])
    d = nma(g)
    P = resolve('qznma:NavParam')
    n = {LNAV: 900, CNAV: 900, CNAV2: 609, FNAV: 976, INAV: 640}[mode]
    sys = G.GPS if mode <= 3 else G.GAL
    d.navmode = {G.GPS: LNAV, G.GAL: INAV, G.QZS: LNAV}
    nsat, ok = {}, []
    cnt = {}
    with Keys(g, d, [v for v, k in zip(valid, kid) if k != 7]) as K:
        for j in range(2):
            svid = 7+j if sys == G.GPS else 64+11+j
            v = {k: g.int(k+str(j), 0, 2**w-1) for k, w in (('nid', 4), ('rtow', 20), ('iode2', 11), ('iodc', 11), ('salt', 16))}
            iode = [5, 300][j]
            ds = g.buf('ds%d' % j, 512)
            npr = P(kid[j], ds, v['salt'], mode, v['nid'], v['rtow'], svid, iode, v['iode2'], v['iodc'])
            nav = g.buf('nav%d' % j, 8*((n+7)//8))
            k0 = len(K.seen)
            r = g.call(Q+'verify_gnss_nav', d, npr, nav)
            if kid[j] == 7:
                g.ensure('key not available', And(Not(r), len(K.seen) == k0))
                continue
            g.ensure('checked once', len(K.seen) == k0+1)
            kn, s, t = K.seen[-1]
            g.ensure('key of that number', kn == kid[j])
            g.ensure('signature', eqb(s, ds))
            g.ensure('parameters', And(g.field(t, 0, 4) == v['nid'], g.field(t, 4, 20) == v['rtow'], g.field(t, 24, 8) == svid, g.field(t, 32, 4) == mode,
                                       g.field(t, 36, 11) == iode, g.field(t, 47, 11) == v['iode2'], g.field(t, 58, 11) == v['iodc'], g.field(t, 69, 8) == kid[j]))
            g.ensure('message', same(g, t, 77, nav, 0, n))
            g.ensure('salt and padding', And(g.field(t, 77+n, 16) == v['salt'], zero(g, t, 93+n, len(t)*8-93-n)))
            g.ensure('length', len(t) == {LNAV: 125, CNAV: 125, CNAV2: 89, FNAV: 134, INAV: 92}[mode])
            g.ensure('accepted', r == bool(valid[j]))
            if valid[j]:
                ok.append((SAT[sys]+j, iode))
    for j in range(2):
        for i in (5, 300):
            c = d.vstatus.get(SAT[sys]+j, {}).get(i, 0)
            g.ensure('authenticated issues', c == ((SAT[sys]+j, i) in ok))
    g.ensure('satellites', And(g.call(Q+'count_valid_sat', d) == len(ok), d.nsat[sys] == (len(ok) if mode in (LNAV, INAV) else 0)))


@contract('A03', fns=[Q+'verify_qzss_nav'], n=300, tmo=120, bytearrays=True)
def qzss(g):
    """the signature of a QZSS satellite covers its own message"""
    mode, kid, valid = cases(g, 30, mode=[LNAV, CNAV, CNAV2], kid=KID, valid=[[1, 1], [0, 1], [1, 0]])
    d = nma(g)
    P = resolve('qznma:NavParam')
    n = {LNAV: 900, CNAV: 900, CNAV2: 609}[mode]
    ok = set()
    with Keys(g, d, [v for v, k in zip(valid, kid) if k != 7]) as K:
        for j in range(2):
            sat = SAT[G.QZS]+j
            salt = g.int('salt%d' % j, 0, 65535)
            ds = g.buf('ds%d' % j, 512)
            nav = g.buf('nav%d' % j, 8*((n+7)//8))
            npr = P(kid[j], ds, salt, mode)
            k0 = len(K.seen)
            r = g.call(Q+'verify_qzss_nav', d, sat, npr, nav, mode)
            if kid[j] == 7:
                g.ensure('key not available', And(Not(r), len(K.seen) == k0))
                continue
            g.ensure('checked once', len(K.seen) == k0+1)
            kn, s, t = K.seen[-1]
            g.ensure('key of that number', kn == kid[j])
            g.ensure('signature', eqb(s, ds))
            g.ensure('key number, message and salt', And(g.field(t, 0, 8) == kid[j], same(g, t, 8, nav, 0, n), g.field(t, 8+n, 16) == salt))
            l = {LNAV: 116, CNAV: 137, CNAV2: 100}[mode]
            g.ensure('length', And(len(t) == l, zero(g, t, 24+n+7-(23+n) % 8, l*8-(24+n+7-(23+n) % 8))))
            g.ensure('accepted', r == bool(valid[j]))
            if valid[j]:
                ok.add(sat)
    for j in range(2):
        g.ensure('authenticated', (SAT[G.QZS]+j in d.vstatus) == (SAT[G.QZS]+j in ok))
    g.ensure('satellites', And(g.call(Q+'count_valid_sat', d) == len(ok), d.nsat[G.QZS] == len(ok)))


# -------------------------------------------------------------------- reception
def lsub(g, nm, tow, sid, part=None, svid=60):
    m = g.buf(nm, 320)
    g.setfield(m, 34, 17, tow//6)
    g.setfield(m, 53, 3, sid)
    if part is not None:
        g.setfield(m, 68, 6, svid)
        setpart(g, LNAV, m, part)
    return m


def cmsg(g, nm, tow, mt, part=None):
    m = g.buf(nm, 304)
    g.setfield(m, 14, 6, mt)
    g.setfield(m, 20, 17, tow//6)
    if part is not None:
        setpart(g, CNAV, m, part)
    return m


@contract('A03', fns=[Q+'decode', Q+'msg2nav', Q+'gen_rds'], n=300, tmo=120, bytearrays=True, merging=False)
def stream(g):
    """the three messages after the last part of a signature are checked with it, once"""
    mode, t0, lost, tail = cases(g, 22, mode=[LNAV, CNAV], t0=[0, 6, 24, 300000, W-6, W-12, W-18, W-24], lost=['', '', '', 'part', 'msg'], tail=[0, 1])
    d = nma(g)
    sat = SAT[G.QZS]
    d.navmsg[sat] = {}
    d.buff[sat] = g.zbuf('buff', 960)
    calls = []
    nb = 320 if mode == LNAV else 304

    def ver(self, s, npr, msg, md):
        calls.append((s, npr.keyid, npr.ds, npr.salt, msg, md))
        return True
    conv = 'lnav_to_mnav' if mode == LNAV else 'cnav_to_mnav'

    def cv(self, msg, sys=None):
        return msg[0:3*nb//8]

    def feed(m, t):
        g.call(Q+'decode', d, t, msg=m, sat=sat, navmode=mode)
    # the time of the last part is t0; earlier parts each 6 s before
    times = [(t0-12) % W, (t0-6) % W, t0]
    drop = g.choice('drop', [t0//6 % 3] if g.symbolic else [0, 1, 2]) if lost else -1
    with g.stub(Q+'verify_qzss_nav', ver), g.stub(Q+conv, cv):
        if tail and mode == LNAV:       # messages of other content in between, and of the time before any signature
            feed(lsub(g, 'x0', (t0-18) % W, 1), 1)
            feed(lsub(g, 'x1', (t0-16) % W//6*6, 4, 1, svid=55), 1)
        elif tail:
            feed(cmsg(g, 'x0', 6, 10), 1)
            feed(cmsg(g, 'x1', 12, 11), 1)
            feed(cmsg(g, 'x2', 18, 30), 1)
        parts = []
        for k in range(3):
            if lost == 'part' and k == drop:
                continue
            m = lsub(g, 'p%d' % k, times[k], [4, 5][k % 2], k+1) if mode == LNAV else cmsg(g, 'p%d' % k, times[k], 60, k+1)
            parts.append(m)
            feed(m, 1)
        nav = []
        for k in range(3):
            if lost == 'msg' and k == drop:
                continue
            g.ensure('not before all messages are there', not calls)
            t = (t0+6*(k+1)) % W
            m = lsub(g, 'n%d' % k, t, k+1) if mode == LNAV else cmsg(g, 'n%d' % k, t, [10, 11, 30][k])
            nav.append(m)
            feed(m, 1)
        if lost:
            g.ensure('nothing is checked', not calls)
            return
        g.ensure('checked', len(calls) == 1)
        s, keyid, ds, salt, msg, md = calls[0]
        w = g.zbuf('w', 720)
        o = 0
        for x in parts:
            for p, n in payload(g, mode, x):
                for q in range(0, n, 32):
                    z = min(32, n-q)
                    g.setfield(w, o, z, g.field(x, p+q, z))
                    o += z
        g.ensure('with the signature received', And(s == sat, md == mode, keyid == g.field(w, 0, 8), eqb(ds, b(w, 1, 64)), salt == g.field(w, 520, 16)))
        for k in range(3):
            g.ensure('messages after it', eqb(b(msg, nb//8*k, nb//8), nav[k]))
        m = lsub(g, 'late', (t0+24) % W, 1) if mode == LNAV else cmsg(g, 'late', (t0+24) % W, 10)
        feed(m, 1)
        g.ensure('checked once', len(calls) == 1)


@contract('A03', fns=[Q+'decode'], n=200, bytearrays=True, merging=False)
def stream2(g):
    """CNAV2: the message 18 s after the last part is checked"""
    d = nma(g)
    sat = SAT[G.QZS]
    t0 = g.choice('t0', [0, 18, 7200-18, 7200, W-18, 300006])
    late = g.choice('late', [0, 18, 36])
    calls = []

    def ver(self, s, npr, msg, md):
        calls.append((s, npr.keyid, npr.salt, msg, md))
        return True

    def cv(self, toi, msg, sys=None):
        return (toi, msg)

    def sf(nm, t, page, part=None):
        t %= W
        m = g.buf(nm, 2000)
        g.setfield(m, 0, 9, t % 7200//18)
        g.setfield(m, 65, 8, t//7200)
        g.setfield(m, 1260, 6, page)
        if part:
            setpart(g, CNAV2, m, part)
        return m
    with g.stub(Q+'verify_qzss_nav', ver), g.stub(Q+'cnav2_to_mnav', cv):
        P = []
        for k in range(3):
            m = sf('p%d' % k, t0-36+18*k, 60, k+1)
            P.append(m)
            g.call(Q+'decode', d, 1, msg=m, sat=sat, navmode=CNAV2)
        g.ensure('not yet', not calls)
        m = sf('n', t0+18+late, g.choice('page', [1, 2]))
        g.call(Q+'decode', d, 1, msg=m, sat=sat, navmode=CNAV2)
    if late:
        g.ensure('too late', not calls)
        return
    s, keyid, salt, msg, md = calls[0]
    g.ensure('checked with the signature received', And(s == sat, md == CNAV2, keyid == g.field(P[0], 1268, 8), salt == g.field(P[2], 1268+520-468, 16)))
    g.ensure('message', And(msg[0] == (t0+18) % W % 7200//18, msg[1] is m))


@contract('A03', fns=[Q+'decode'], n=200, bytearrays=True, merging=False)
def l6(g):
    """both requests of an L6 message of the service are checked, and none of other messages"""
    d = nma(g)
    m = g.buf('msg', 2000)
    n1, n2 = g.choice('n1', [0, 1]), g.choice('n2', [0, 1])
    at, calls = [], []

    def dec(self, tow, msg, i):
        at.append((msg is m, i))
        return ((i, 'p'), (i, 'm')) if (n1 if i == 49 else n2) else (None, None)

    def ver(self, npr, nav):
        calls.append((npr, nav))
        return False
    vid = g.concretize(g.field(m, 40, 3)) if not g.symbolic else g.choice('vid', range(8))
    if g.symbolic:
        g.setfield(m, 40, 3, vid)
    with g.stub(Q+'decode_gnss_rds', dec), g.stub(Q+'verify_gnss_nav', ver):
        g.call(Q+'decode', d, 100, msg_n=m)
    if vid != 3:
        g.ensure('not of this service', And(not calls, not at))
    else:
        g.ensure('requests', sorted(at) == [(True, 49), (True, 654)])
        g.ensure('checked', sorted(calls) == [((i, 'p'), (i, 'm')) for i, n in ((49, n1), (654, n2)) if n])


# --------------------------------------------------------------- message storage
@contract('A03', fns=[Q+'chk_gps_lnav', 'qznma:NavMsg.__init__'], n=400, bytearrays=True)
def lnav_issue(g):
    """three sub-frames of one issue"""
    d = nma(g)
    m = g.buf('m', 960)
    if not g.symbolic:
        for k in range(3):
            g.setfield(m, 320*k+53, 3, k+1 if g.choice('i%d' % k, [1, 1, 1, 0]) else g.choice('id%d' % k, range(8)))
        iod = g.choice('iod', [0, 255, 77])
        for o in (32*7+2, 320+66, 640+32*9+2):
            if g.choice('s%d' % o, [1, 1, 1, 0]):
                g.setfield(m, o, 8, iod)
    r = g.call(Q+'chk_gps_lnav', d, G.GPS, m)
    ids = And(*[g.field(m, 320*k+53, 3) == k+1 for k in range(3)])
    i1, i2, i3 = g.field(m, 32*7+2, 8), g.field(m, 320+66, 8), g.field(m, 640+32*9+2, 8)
    ok = And(ids, i1 == i2, i2 == i3)
    if r is None:
        g.ensure('refused', Not(ok))
        return
    g.ensure('accepted', ok)
    g.ensure('issue', And(r.iodn == i2, r.iodc == g.field(m, 32*2+2+22, 2)*256+i1, r.sys == G.GPS, r.navid == LNAV))
    g.ensure('times', And(r.tow == g.field(m, 34, 17)*6, r.toc == g.field(m, 32*7+10, 16), r.toe == g.field(m, 320+32*9+2, 16)))
    g.ensure('content', And(len(r.msg) == 120, same(g, r.msg, 0, m, 0, 960), r.msg is not m))


@contract('A03', fns=[Q+'chk_gps_cnav'], n=400, bytearrays=True)
def cnav_issue(g):
    d = nma(g)
    m = g.buf('m', 912)
    mt3 = g.choice('mt3', [10, 11, 30, 31, 32, 33, 35, 36, 37, 61, 12, 34, 60, 0])
    mt1, mt2 = g.choice('mt1', [10, 10, 10, 11]), g.choice('mt2', [11, 11, 11, 10])
    for k, t in enumerate((mt1, mt2, mt3)):
        g.setfield(m, 304*k+14, 6, t)
    if not g.symbolic:
        toe = g.choice('toe', [0, 5, 2015])
        for o in (70, 304+38, 608+60):
            if g.choice('s%d' % o, [1, 1, 1, 0]):
                g.setfield(m, o, 11, toe)
    r = g.call(Q+'chk_gps_cnav', d, G.GPS, m)
    a, c, e = g.field(m, 70, 11), g.field(m, 342, 11), g.field(m, 668, 11)
    ok = And(mt1 == 10, mt2 == 11, a == c, c == e)
    third = mt3 in (30, 31, 32, 33, 35, 36, 37, 61)
    if r is None:
        g.ensure('refused', Not(And(ok, third)))
        return
    g.ensure('accepted', And(ok, third or mt3 in (10, 11)))
    g.ensure('issue', And(r.iodn == a, r.iodc == e, r.toe == a, r.toc == e, r.tow == g.field(m, 20, 17)*6, r.navid == CNAV))
    g.ensure('content', And(same(g, r.msg, 0, m, 0, 912), r.msg is not m))


@contract('A03', fns=[Q+'msg2nav', Q+'count_tracked_sat'], n=200, bytearrays=True)
def storage(g):
    """messages of each kind and issue are kept"""
    d = nma(g)
    sat = SAT[G.QZS]
    d.navmsg[sat] = {}
    d.buff[sat] = g.zbuf('buff', 960)
    d.flag_e[sat] = 0
    mode = [LNAV, CNAV][g.choice('mode', [0, 1])]
    other = 3-mode
    nb = 40 if mode == LNAV else 38
    iod = g.int('iod', 0, 255)
    have = g.choice('have', ['', 'other', 'same'])
    N = resolve('qznma:NavMsg')
    new = N(G.QZS, mode)
    new.iodn, new.tow = 33, 600
    old = N(G.QZS, other if have == 'other' else mode)
    old.tow = 120
    if have:
        d.navmsg[sat] = {33: {old.navid: old}}
    ms = [g.buf('m%d' % k, 320) for k in range(3)]
    seen = []

    def chk(self, sys, buff):
        seen.append((sys, buff[0:3*nb]))
        return new if len(seen) == 3 else None
    order = g.choice('order', [[1, 2, 3], [3, 1, 2]])
    with g.stub(Q+('chk_gps_lnav' if mode == LNAV else 'chk_gps_cnav'), chk):
        for k in order:
            g.call(Q+'msg2nav', d, sat, k, ms[k-1], mode)
    g.ensure('progress', d.flag_e[sat] == 7)
    for k in range(3):
        g.ensure('messages in their place', same(g, seen[2][1], nb*8*k, ms[k], 0, nb*8))
    g.ensure('system', seen[2][0] == G.QZS)
    st = d.navmsg[sat][33]
    g.ensure('kept by kind and issue', And(mode in st, st.get(mode) is (old if have == 'same' else new)))
    if have == 'other':
        g.ensure('other kinds stay', st.get(other) is old)
    first = 120 if have else 600
    for t in (0, 119, 120, 599, 600):
        g.ensure('tracked', g.call(Q+'count_tracked_sat', d, t) == (1 if t >= first else 0))
    # twenty satellites, each with twenty issues of which one is old enough
    d.navmsg = {}
    for s in range(1, 21):
        d.navmsg[s] = {}
        for q in range(20):
            d.navmsg[s][q] = {}
            for k in (LNAV, CNAV):
                v = d.navmsg[s][q][k] = N(G.QZS, k)
                v.tow = 300 if q == s-1 and k == 1+s % 2 else 900
    g.ensure('tracked of many', And(g.call(Q+'count_tracked_sat', d, 300) == 20, g.call(Q+'count_tracked_sat', d, 299) == 0))


# --------------------------------------------------------------- whole receivers
def keypair(d, kid, rng):
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives import serialization as S
    k = ec.derive_private_key(rng.getrandbits(250)+1, ec.SECP256R1())
    with open('%s/%03d.der' % (d, kid), 'wb') as f:
        f.write(k.public_key().public_bytes(S.Encoding.DER, S.PublicFormat.SubjectPublicKeyInfo))
    return k


def sign(k, msg):
    from cryptography.hazmat.primitives.asymmetric import ec, utils
    from cryptography.hazmat.primitives import hashes
    r, s = utils.decode_dss_signature(k.sign(bytes(msg), ec.ECDSA(hashes.SHA256())))
    return r << 256 | s


class Bits:
    def __init__(self, n):
        self.n, self.v = n, 0

    def put(self, o, w, v):
        sh = self.n-o-w
        self.v = self.v & ~(((1 << w)-1) << sh) | (v & ((1 << w)-1)) << sh

    def get(self, o, w):
        return self.v >> (self.n-o-w) & ((1 << w)-1)

    def bytes(self):
        n = (self.n+7)//8
        return bytearray((self.v << (n*8-self.n)).to_bytes(n, 'big'))


@contract('A03', fns=[Q+'decode', Q+'verify_qzss_nav', Q+'load_navmsg_lnav', Q+'load_navmsg_inav', Q+'load_navmsg_fnav', Q+'load_navmsg_cnav', Q+'verify_gnss_nav', Q+'decode_gnss_rds'],
          n=60, prove=False, why='real signatures and files: executed against independent transmitters')
def reception(g):
    import random
    rng = random.Random(g.int('seed', 0, 10**9))
    tmp = tempfile.mkdtemp(prefix='qzr')
    try:
        keys = {k: keypair(tmp, k, rng) for k in (1, 2)}
        d = resolve('qznma:qznma')()
        d.pubk_bdir = tmp
        if g.choice('kind', ['qzss', 'gnss']) == 'qzss':
            _qzss(g, d, rng, keys)
        else:
            _gnss(g, d, rng, keys, tmp)
    finally:
        shutil.rmtree(tmp)


def _qzss(g, d, rng, keys):
    sat = SAT[G.QZS]
    start = g.choice('start', [0, 1, 2, 3, 4])
    bad = g.choice('bad', ['', '', 'bit', 'key', 'masked'])
    t = g.choice('tow', [0, 3000, W-90, W-60, W-30])
    good = 0
    for frame in range(4):
        kid = 1+frame//2
        sub = []
        for sid in (4, 5, 4, 5, 1, 2, 3):
            x = Bits(320)
            for k in range(10):
                x.put(32*k+2, 30, rng.getrandbits(30))
            x.put(34, 17, (t+6*len(sub)) % W//6)
            x.put(53, 3, sid)
            sub.append(x)
        nav = Bits(904)
        for s in range(3):
            x = sub[4+s]
            for k in range(10):
                for q in range(24):
                    kp = KEEP[G.QZS][s][k]
                    if any(a <= q < c for a, c in zip(kp[::2], kp[1::2])):
                        nav.put(300*s+30*k+q, 1, x.get(32*k+2+q, 1))
        salt = rng.getrandbits(16)
        r = Bits(116*8)
        r.put(0, 8, kid)
        r.put(8, 900, nav.get(0, 900))
        r.put(908, 16, salt)
        ds = sign(keys[kid if bad != 'key' else 3-kid], r.bytes())
        p = Bits(540)
        p.put(0, 8, kid)
        p.put(8, 512, ds)
        p.put(520, 16, salt)
        for j in range(3):
            x = sub[j+1]
            o = 180*j
            x.put(68, 6, 60)
            x.put(74, 2, j+1)
            for a, n in payload(g, LNAV, None):
                x.put(a, n, p.get(o, n))
                o += n
        if sub[0].get(68, 6) == 60:
            sub[0].put(68, 6, 1)
        if bad == 'bit':
            x, o = sub[4+rng.randrange(3)], 32*rng.randrange(3, 9)+2+rng.randrange(24)
            x.put(o, 1, 1-x.get(o, 1))
        if bad == 'masked':
            sub[4].put(30, 2, 3-sub[4].get(30, 2))
            sub[5].put(2+24, 6, 0)
        for j, x in enumerate(sub):
            if frame == 0 and j < start:
                continue
            d.decode(t+6*j, msg=x.bytes(), sat=sat)
        t = (t+42) % W
        if bad in ('', 'masked') and (frame or start < 2):
            good += 1
        g.ensure('authentic frames', sum(d.vstatus.get(sat, {}).values()) == good)
    g.ensure('authentic satellites', And(d.count_valid_sat() == (good > 0), d.nsat[G.QZS] == (good > 0)))


def _gnss(g, d, rng, keys, tmp):
    mode = g.choice('mode', [LNAV, CNAV, FNAV, INAV])
    prn = rng.randrange(1, 33)
    sys = G.GPS if mode <= 2 else G.GAL
    sat = resolve('gnss:prn2sat')(sys, prn)
    iod = rng.randrange(256) if mode == LNAV else rng.randrange(1024)
    lines = []
    msgs = []
    tow0 = 3000
    if mode == LNAV:
        for s in range(3):
            x = Bits(320)
            for k in range(10):
                x.put(32*k+2, 30, rng.getrandbits(30))
            x.put(34, 17, tow0//6+s)
            x.put(53, 3, s+1)
            msgs.append(x)
        msgs[0].put(32*7+2, 8, iod)
        msgs[1].put(66, 8, iod)
        msgs[2].put(32*9+2, 8, iod)
        other = Bits(320)
        other.put(53, 3, 4)
    elif mode == CNAV:
        for s, (mt, o) in enumerate(((10, 70), (11, 38), (30, 60))):
            x = Bits(304)
            x.put(0, 300, rng.getrandbits(300))
            x.put(8, 6, prn)
            x.put(14, 6, mt)
            x.put(20, 17, tow0//6+s)
            x.put(o, 11, iod)
            msgs.append(x)
        other = Bits(304)
        other.put(14, 6, 15)
    elif mode == FNAV:
        for s in range(4):
            x = Bits(248)
            x.put(0, 244, rng.getrandbits(244))
            x.put(0, 6, s+1)
            x.put(12 if s == 0 else 6, 10, iod)
            x.put([167, 194, 186, 189][s], 20, tow0+10*s)
            msgs.append(x)
        other = Bits(248)
        other.put(0, 6, 63)
    else:
        words = []
        for s in range(5):
            x = Bits(128)
            x.put(0, 128, rng.getrandbits(128))
            x.put(0, 6, s+1)
            if s < 4:
                x.put(6, 10, iod)
            y = Bits(240)
            y.put(0, 240, rng.getrandbits(240))
            y.put(2, 112, x.get(0, 112))
            y.put(122, 16, x.get(112, 16))
            words.append(x)
            msgs.append(y)
        other = Bits(240)
        other.put(2, 6, 0)
    order = list(range(len(msgs)))
    rot = g.choice('rot', [0, 0, 1])
    long = g.choice('long', [0, 0, 20])
    seqm = [other]*long+[other]+[msgs[k] for k in order[rot:]]+[other]+msgs if mode != INAV else [other]*long+[other]+[msgs[k] for k in order[rot:]]+msgs+[other]
    with open(tmp+'/nav.txt', 'w') as f:
        for k, x in enumerate(seqm):
            for p in (range(32, 0, -1) if long else (prn, prn % 32+1)):
                f.write('2300 %d %d %d %d %s\n' % (tow0+6*k, p, 0, len(x.bytes()), hexlify(x.bytes()).decode() if p == prn else '00'*len(x.bytes())))
    {LNAV: d.load_navmsg_lnav, CNAV: d.load_navmsg_cnav, FNAV: d.load_navmsg_fnav, INAV: d.load_navmsg_inav}[mode](tmp+'/nav.txt')
    g.ensure('messages of the file', And(list(d.navmsg[sat]) == [iod], list(d.navmsg[sat][iod]) == [mode]))
    # message as signed, at a later time
    p, w, step, wrap = TOW[mode]
    rt = g.choice('rt', [5000, wrap-1, wrap-15])
    n = {LNAV: 900, CNAV: 900, FNAV: 976, INAV: 640}[mode]
    nav = Bits(n)
    for s in range(len(msgs)):
        if mode == LNAV:
            for k in range(10):
                kp = KEEP[G.GPS][s][k]
                for q in range(24):
                    if any(a <= q < c for a, c in zip(kp[::2], kp[1::2])):
                        nav.put(300*s+30*k+q, 1, msgs[s].get(32*k+2+q, 1))
        elif mode == CNAV:
            for a, c in CN[G.GPS][s]:
                nav.put(300*s+a, c-a, msgs[s].get(a, c-a))
        elif mode == FNAV:
            nav.put(244*s, 214, msgs[s].get(0, 214))
            nav.put(244*s+238, 6, msgs[s].get(238, 6))
        else:
            nav.put(128*s, 128, words[s].get(0, 128))
    for j, o in enumerate(p):
        nav.put(o, w, (rt+j*step) % wrap)
    kid = g.choice('kid', [1, 2])
    bad = g.choice('bad', ['', '', 'nav', 'key', 'ds', 'param'])
    l6 = Bits(2000)
    l6.put(40, 3, 3)
    svid = prn if sys == G.GPS else prn+64
    ii = [49, 654][g.choice('slot', [0, 1])]
    q = Bits(77+n+16)
    o = 0
    iode2, iodc, salt = rng.getrandbits(11), rng.getrandbits(11), rng.getrandbits(16)
    for v, x in ((0, 4), (rt, 20), (svid, 8), (mode, 4), (iod, 11), (iode2, 11), (iodc, 11), (kid, 8), (nav.v, n), (salt, 16)):
        q.put(o, x, v)
        o += x
    if bad == 'nav':
        at = rng.choice([a for a in range(n) if nav.get(a, 1)])
        q.put(77+at, 1, 0)
    blen = {LNAV: 125, CNAV: 125, FNAV: 134, INAV: 92}[mode]
    body = q.bytes()
    body += bytearray(blen-len(body))
    ds = sign(keys[kid if bad != 'key' else 3-kid], body)
    if bad == 'ds':
        ds ^= 1 << rng.randrange(512)
    o = ii
    for v, x in ((0, 4), (rt, 20), (svid, 8), (mode, 4), (iod, 11), (iode2 ^ (bad == 'param'), 11), (iodc, 11), (kid, 8), (ds, 512), (salt, 16)):
        l6.put(o, x, v)
        o += x
    for _ in range(2):
        d.decode(100, msg_n=l6.bytes())
    ok = not bad
    g.ensure('authentic', d.vstatus == ({sat: {iod: 2}} if ok else {}))
    g.ensure('satellites', And(d.count_valid_sat() == ok, d.nsat[sys] == (ok and mode in (LNAV, INAV))))
