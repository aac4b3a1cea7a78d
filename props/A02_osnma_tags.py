"""A02 OSNMA: navigation data is marked authentic only by a valid tag under a key of the verified chain."""
import os
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, Implies, close, resolve
from .f_common import cases
from .A01_osnma_keys import nma, eqb, cat, one, b, O, KLEN, TLEN, LOADED, VERIFIED, CHAIN

W = 604800


def gstb(g, wn, tow):
    """32 bits of week and time of week"""
    m = g.zbuf('g%d' % len(g.__dict__.setdefault('_gst', [])), 32)
    g._gst.append(m)
    g.setfield(m, 0, 12, wn)
    g.setfield(m, 12, 20, tow)
    return m


@contract('A02', fns=[O+'update_key_chain'], n=200, bytearrays=True)
def chain_step(g):
    """each step hashes the key, the time of the previous sub-frame and the seed"""
    d = nma(g)
    d.ks = g.choice('ks', [0, 4, 8] if g.symbolic else range(9))
    ki = g.choice('ki', [1, 2, 3] if g.symbolic else [1, 2, 3, 7])
    l = KLEN[d.ks]//8
    d.alp = g.buf('alp', 48)
    key = g.buf('key', l*8)
    wn, s = g.int('wn', 1, 4000), g.int('s', 0, 20159)
    H = [g.buf('h%d' % k, 256) for k in range(ki)]
    seen = []

    def hash_(self, m):
        seen.append(m)
        return H[len(seen)-1]
    with g.stub(O+'process_hash', hash_):
        r = g.call(O+'update_key_chain', d, key, wn, s*30, ki)
    for k in range(ki):
        t = wn*20160+s-(k+1)
        g.ensure('length', len(seen[k]) == l+10)
        g.ensure('previous key', eqb(b(seen[k], 0, l), key if k == 0 else b(H[k-1], 0, l)))
        g.ensure('time of the key', And(g.field(seen[k], 8*l, 12) == t//20160, g.field(seen[k], 8*l+12, 20) == t % 20160*30))
        g.ensure('seed', eqb(b(seen[k], l+4, 6), d.alp))
    g.ensure('result', And(len(seen) == ki, eqb(r, b(H[ki-1], 0, l))))


@contract('A02', fns=[O+'verify_key_chain'], n=300, bytearrays=True)
def chain(g):
    """a key is accepted only if it leads to the last verified key or the root key in as many steps as sub-frames elapsed"""
    d = nma(g)
    d.status = g.choice('st', [0, 1, 3, 7, 15])
    d.ks = 4
    d.wn, d.towh = g.int('wn0', 0, 4095), g.int('towh', 0, 167)
    d.kroot, d.key, d.key_p = g.buf('kroot', 128), g.buf('key', 128), g.buf('keyp', 128)
    wc, sc = g.int('wc', 0, 4095), g.int('sc', 0, 20159)
    d.gst_sf_c = gstb(g, wc, sc*30)
    wn, s = g.int('wn', 0, 4095), g.int('s', 0, 20159)
    d.gst_tow = g.int('other', 0, W)
    key, out = g.buf('new', 128), g.buf('out', 128)
    seen = []

    def upd(self, k, w, t, n=1):
        seen.append((k, w, t, n))
        return out
    st = d.status
    with g.stub(O+'update_key_chain', upd):
        r = g.call(O+'verify_key_chain', d, key, wn, s*30)
    if not st & VERIFIED:
        g.ensure('no verified root key', And(Not(r), d.status == st))
        return
    last = st & CHAIN != 0
    n = (wn-wc)*20160+s-sc if last else (wn-d.wn)*20160+s-d.towh*120+1
    ref = d.key if last else d.kroot
    if seen:
        g.ensure('steps elapsed', And(len(seen) == 1, seen[0][0] is key, seen[0][1] == wn, seen[0][2] == s*30, seen[0][3] == n))
        ok = And(n > 0, eqb(out, ref))
    else:
        g.ensure('only keys of the past or of no time are refused at once', n <= 0)
        ok = False
    g.ensure('accepted', Iff(r, ok))
    g.ensure('state of the chain', d.status == Ite(ok, st | CHAIN, st & ~CHAIN))


@contract('A02', fns=[O+'save_mack', O+'decode_mack'], n=200, bytearrays=True)
def mack(g):
    """tags of the previous sub-frame, keys of both, per satellite"""
    if g.symbolic:          # every length of the key and of the tag
        ks, ts = g.choice('sizes', [(k, list(TLEN)[(k*2+j) % len(TLEN)]) for k in range(9) for j in (0, 3)])
    else:
        ks, ts = cases(g, 10, ks=range(9), ts=list(TLEN))
    d = nma(g)
    d.ks, d.ts = ks, ts
    lk, lt = KLEN[ks], TLEN[ts]
    nt = (480-lk)//(lt+16)
    d.mack_p, d.mack_c = g.buf('p', 480*36), g.buf('c', 480*36)
    prn = g.choice('prn', [1, 20, 36])
    new, c0 = g.buf('new', 480), d.mack_c[0:2160]
    d.status = 0
    d.nt = 9  # of former parameters
    g.ensure('no parameters', g.call(O+'decode_mack', d, prn) is False)
    d.status = 1
    g.call(O+'save_mack', d, new, prn)
    g.ensure('decoded', g.call(O+'decode_mack', d, prn))
    old = c0[60*prn-60:60*prn]
    g.ensure('number of tags', d.nt == nt)
    n = nt*(lt+16)
    g.ensure('tags of the previous message', And(len(d.tag) == (n+7)//8, eqb(d.tag, old[0:(n+7)//8])))
    g.ensure('length of the key', And(len(d.key_c) == lk//8, len(d.key_p) == lk//8))
    g.ensure('keys of both messages', And(*[And(Iff(g.bitat(d.key_c, k), g.bitat(new, n+k)), Iff(g.bitat(d.key_p, k), g.bitat(old, n+k))) for k in range(lk)]))
    q = 37-prn if prn != 20 else 1
    if q != prn:
        g.ensure('other satellites', And(eqb(d.mack_c[60*q-60:60*q], c0[60*q-60:60*q])))


@contract('A02', fns=[O+'decode_tags_info'], n=200, bytearrays=True)
def tags_info(g):
    ts, k = cases(g, 60, ts=list(TLEN), k=range(10))
    d = nma(g)
    d.ts = ts
    lt = TLEN[ts]
    d.tag = g.buf('tag', 480)
    d.status = 0
    g.ensure('no parameters', g.call(O+'decode_tags_info', d, k) is False)
    d.status = 1
    o = k*(lt+16)
    if o+lt+16 > 480:
        return
    r = g.call(O+'decode_tags_info', d, k)
    tag = r[0]
    j = g.int('j', 0, lt-1)
    g.ensure('tag', And(len(tag) == (lt+7)//8, Iff(g.bitat(tag, j), g.bitat(d.tag, o+j))))
    g.ensure('padding', And(*[Not(g.bitat(tag, q)) for q in range(lt, len(tag)*8)]))
    if k == 0:
        g.ensure('MACSEQ and cut-off', And(g.field(r[1], 0, 12) == g.field(d.tag, o+lt, 12), r[2] == g.field(d.tag, o+lt+12, 4)))
    else:
        g.ensure('satellite, kind and cut-off', And(r[1] == g.field(d.tag, o+lt, 8), r[2] == g.field(d.tag, o+lt+8, 4), r[3] == g.field(d.tag, o+lt+12, 4)))


# MAC look-up table of the interface document: S self, E other, F flexible
SEQ = {27: '00S 00E 00E 00E 12S 00E|00S 00E 00E 04S 12S 00E', 28: '00S 00E 00E 00E 00S 00E 00E 12S 00E 00E|00S 00E 00E 00S 00E 00E 04S 12S 00E 00E',
       31: '00S 00E 00E 12S 00E|00S 00E 00E 12S 04S', 33: '00S 00E 04S 00E 12S 00E|00S 00E 00E 12S 00E 12E', 34: '00S F 04S F 12S 00E|00S F 00E 12S 00E 12E',
       35: '00S F 04S F 12S F|00S F F 12S F F', 36: '00S F 04S F 12S|00S F 00E 12S 12E', 37: '00S 00E 04S 00E 12S|00S 00E 00E 12S 00E',
       38: '00S F 04S F 12S|00S F F 12S F', 39: '00S F 04S F|00S F 00E 12S', 40: '00S 00E 04S 12S|00S 00E 00E 12E', 41: '00S F 04S F|00S F F 12S'}


def seq(mt, half):
    return SEQ[mt].split('|')[half].split()


@contract('A02', fns=[O+'verify_maclt'], n=300, bytearrays=True)
def look_up(g):
    """kinds and sources of the tags are those of the table for that half of the 60 s"""
    mt = g.choice('maclt', list(SEQ)+[0, 30])
    d = nma(g)
    d.maclt = mt
    d.prn_a = g.int('prna', 1, 36)
    s = g.int('s', 0, 20159)
    half = g.concretize(s % 2)
    d.gst_sf_p = gstb(g, 1000, s*30)
    if mt not in SEQ:
        d.nt = 6
        g.ensure('unknown table', Not(g.call(O+'verify_maclt', d)))
        return
    e = seq(mt, half)
    d.nt = len(e)+g.choice('dn', [0, 0, 1, -1])
    info = [(b'', g.int('prnd%d' % k, 0, 255), g.int('adkd%d' % k, 0, 15), 1) for k in range(d.nt)]
    with g.stub(O+'decode_tags_info', lambda self, k: info[k]):
        r = g.call(O+'verify_maclt', d)
    if d.nt != len(e):
        g.ensure('number of tags', Not(r))
        return
    ok = And(*[And(info[k][2] == int(c[:2]), Or(c[2] != 'S', info[k][1] == d.prn_a)) for k, c in enumerate(e) if c != 'F' and k > 0])
    g.ensure('accepted', Iff(r, ok))


@contract('A02', fns=[O+'verify_macseq'], n=300, bytearrays=True)
def macseq(g):
    """the sequence is authenticated over source, time and flexible tags"""
    mt, lt = cases(g, 30, maclt=list(SEQ)+[5], lt=[5, 6, 7, 8, 9])
    d = nma(g)
    d.maclt, d.ts = mt, lt
    d.status = 1
    lt = TLEN[lt]
    d.prn_a = g.int('prna', 1, 36)
    s = g.int('s', 0, 20159)
    half = g.concretize(s % 2)
    d.gst_sf_p = gstb(g, 1000, s*30)
    d.tag = g.buf('tag', 480)
    seen = []
    M = g.buf('mac', 256)

    def mac(self, m):
        seen.append(m)
        return M
    if mt not in SEQ:
        d.nt = 6
        g.ensure('unknown table', Not(g.call(O+'verify_macseq', d)))
        return
    e = seq(mt, half)
    d.nt = len(e)
    if len(e)*(lt+16) > 480:
        return
    with g.stub(O+'process_mac', mac):
        r = g.call(O+'verify_macseq', d)
    fl = [k for k, c in enumerate(e) if c == 'F']
    g.ensure('length', And(len(seen) == 1, len(seen[0]) == 5+2*len(fl)))
    g.ensure('source and time', And(seen[0][0] == d.prn_a, eqb(b(seen[0], 1, 4), d.gst_sf_p)))
    for q, k in enumerate(fl):
        g.ensure('flexible tags', g.field(seen[0], 40+16*q, 16) == g.field(d.tag, k*(lt+16)+lt, 16))
    g.ensure('accepted', Iff(r, g.field(M, 0, 12) == g.field(d.tag, lt, 12)))


@contract('A02', fns=[O+'gen_msg', O+'verify_navmsg'], n=300, tmo=120, bytearrays=True)
def tag(g):
    """the tag covers satellite, source, time, number, status and the data"""
    d = nma(g)
    adkd, ctr, ts, who = cases(g, 16, adkd=[0, 0, 4, 12], ctr=[1, 2, 5, 10], ts=list(TLEN), who=['self', 'self', 'other', 'all'])
    if ctr == 1:
        adkd, who = 0, 'self'
    d.ts = ts
    d.prn_a = g.int('prna', 1, 36)
    prn_d = d.prn_a if who == 'self' else 255 if who == 'all' else g.int('prnd', 1, 36)
    d.nma_header = g.int('hdr', 0, 255)
    n = 141 if adkd == 4 else 549
    nav = g.buf('nav', 8*((n+7)//8))
    gst = g.buf('gst', 32)
    if not g.symbolic:
        gst = bytes(gst)
    M, T = g.buf('mac', 256), g.buf('tag', 8*((TLEN[ts]+7)//8))
    for k in range(TLEN[ts], 8*len(T)):
        g.setfield(T, k, 1, 0)
    seen = []

    def mac(self, m):
        seen.append(m)
        return M
    t = resolve('osnma:taginfo')(b'', 1, 1, adkd, 1, T, ctr, None)
    t.gst_sf, t.prn_d, t.prn_a = gst, prn_d, d.prn_a
    g.lift(t, 1)
    with g.stub(O+'process_mac', mac):
        g.ensure('without data', g.call(O+'verify_navmsg', d, t) is False)
        t.navmsg = nav
        r = g.call(O+'verify_navmsg', d, t)
    m = seen[0]
    i = 0
    if ctr > 1:
        g.ensure('authenticated satellite', g.field(m, 0, 8) == (d.prn_a if who == 'all' else prn_d))
        i = 8
    g.ensure('authenticating satellite', g.field(m, i, 8) == d.prn_a)
    g.ensure('time, number and status', And(g.field(m, i+8, 32) == g.field(gst, 0, 32), g.field(m, i+40, 8) == ctr, g.field(m, i+48, 2) == d.nma_header//64))
    g.ensure('length', len(m) == (i+50+n+7)//8)
    k = g.int('k', 0, n-1)
    g.ensure('data', Iff(g.bitat(m, i+50+k), g.bitat(nav, k)))
    g.ensure('zero padding', And(*[Not(g.bitat(m, q)) for q in range(i+50+n, len(m)*8)]))
    lt = TLEN[ts]
    g.ensure('accepted only if the tag is right', Iff(r, And(*[Iff(g.bitat(M, q), g.bitat(T, q)) for q in range(lt)])))


# ------------------------------------------------------------ navigation data
@contract('A02', fns=[O+'load_gal_inav'], n=200, bytearrays=True)
def page(g):
    d = nma(g)
    m = g.buf('page', 240)
    if g.symbolic:
        for o, w, v in ((0, 2, 0), (120, 2, 2)):
            g.setfield(m, o, w, v)
    nav, o = g.call(O+'load_gal_inav', d, m)
    k = g.int('k', 0, 127)
    g.ensure('word of both pages', Iff(g.bitat(nav, k), g.bitat(m, Ite(k < 112, 2+k, 122+k-112))))
    k = g.int('j', 0, 39)
    g.ensure('OSNMA field', Iff(g.bitat(o, k), g.bitat(m, 138+k)))


@contract('A02', fns=[O+'save_gal_inav', O+'gen_gal_inavmsg', O+'gen_gal_utcmsg', 'gnss:copy_buff'], n=400, tmo=120, bytearrays=True, merging=False)
def data(g):
    """data of two sub-frames ago, complete and of one issue"""
    miss, iod, utc, ws = cases(g, 9, miss=[0, 0, 0, 1, 3, 5], iod=[0, 0, 1, 2, 3], utc=['both', 'no6', 'no10'], who=[0, 1])
    d = nma(g)
    prn = [11, 36][ws]
    d.prn_a = prn
    d.subfrm, d.subfrm_n, d.subfrm_p = {}, {}, {}
    # three sub-frames; the data to authenticate are those of the first one
    w = {}
    t0 = 30*4321
    order = [[2, 4, 6, 7, 8, 1, 3, 5, 9, 10, 0, 16], [1, 3, 5, 10, 2, 4, 6]][(miss+ws) % 2 if g.symbolic else g.choice('order', [0, 1])]
    for sf in range(3):
        for j, mt in enumerate(order):
            if sf == 0 and (mt == miss or mt == 6 and utc == 'no6' or mt == 10 and utc == 'no10'):
                mt = 0
            x = g.buf('w%d_%d' % (sf, j), 128)
            g.setfield(x, 0, 6, mt)
            if 1 <= mt <= 4:
                g.setfield(x, 6, 10, 5+sf if mt != 1+iod or iod == 0 or sf else 900)
            w[sf, mt] = x
            g.call(O+'save_gal_inav', d, x, prn, t0+30*sf+1+2*j)
    r = g.call(O+'gen_gal_inavmsg', d, prn)
    u = g.call(O+'gen_gal_utcmsg', d)
    if miss or iod:
        g.ensure('incomplete or of different issues', r is None)
    else:
        o = 0
        for mt, n in ((1, 120), (2, 120), (3, 122), (4, 120), (5, 67)):
            g.ensure('word %d' % mt, And(*[Iff(g.bitat(r, o+k), g.bitat(w[0, mt], 6+k)) for k in range(n)]))
            o += n
        g.ensure('padding', And(len(r) == 69, *[Not(g.bitat(r, k)) for k in range(549, 552)]))
    if utc != 'both':
        g.ensure('no complete time data', u is None)
    else:
        g.ensure('time data', And(len(u) == 18, *[Iff(g.bitat(u, k), g.bitat(w[0, 6], 6+k)) for k in range(99)], *[Iff(g.bitat(u, 99+k), g.bitat(w[0, 10], 86+k)) for k in range(42)]))
    for q in (0, 37, 5):
        g.ensure('other satellites', g.call(O+'gen_gal_inavmsg', d, q) is None)


@contract('A02', fns=[O+'save_auth_nav', O+'chk_nav', O+'count_valid_sat', O+'difftime', 'osnma:taginfo.__init__'], n=300)
def status(g):
    """authenticated issues of each satellite"""
    d = nma(g)
    d.vstatus = {}
    d.vcnt_min = g.choice('min', [1, 2, 3])
    d.status = 7
    n = {}
    T = resolve('osnma:taginfo')
    for k in range(8):
        prn, adkd, iod, ok = [1, 5, 9, 36, 20][g.choice('p%d' % k, range(5)) if not g.symbolic else k*3 % 5], [0, 12, 4][k % 3], 7+k % 2, g.bool('ok%d' % k)
        nav = bytearray(69)
        nav[0], nav[1] = iod >> 2, (iod & 3) << 6
        t = T(b'\0'*4, prn, 1, adkd, 1, b'x', 1, nav)
        ok = g.concretize(Ite(ok, 1, 0))
        r = g.call(O+'save_auth_nav', d, bool(ok), t)
        key = (37, 0) if adkd == 4 else (prn, iod)
        if ok:
            n[key] = n.get(key, 0)+1
        g.ensure('enough valid tags', r == (bool(ok) and n[key] >= d.vcnt_min))
    for p in (1, 5, 9, 36, 20, 2):
        for i in (7, 8, 9):
            g.ensure('authenticated exactly after enough valid tags', g.call(O+'chk_nav', d, p, i) == (n.get((p, i), 0) >= d.vcnt_min))
    m = len({p for (p, i), c in n.items() if c >= d.vcnt_min and p != 37})
    g.ensure('satellites', And(g.call(O+'count_valid_sat', d) == m, d.status == (7 | (16 if m >= 4 else 0))))
    a, c = g.int('wa', 0, 4095), g.int('wb', 0, 4095)
    x, y = g.int('ta', 0, W-1), g.int('tb', 0, W-1)
    ga, gb = g.zbuf('ga', 32), g.zbuf('gb', 32)
    for z, q, s in ((ga, a, x), (gb, c, y)):
        g.setfield(z, 0, 12, q)
        g.setfield(z, 12, 20, s)
    g.ensure('difference of times', g.call(O+'difftime', d, ga, gb) == (a-c)*W+x-y)


# ------------------------------------------------------------- one sub-frame
def stubs(g, d, log, **res):
    """record the order of the steps of one sub-frame"""
    from contextlib import ExitStack
    es = ExitStack()

    def mk(nm):
        def f(self, *a):
            log.append((nm,)+a)
            v = res.get(nm)
            return v(self, *a) if callable(v) else v
        return f
    for nm in ('save_mack', 'decode_hk', 'verify_root_key', 'decode_mack', 'verify_key_chain', 'verify_maclt', 'verify_macseq', 'decode_tags_info', 'gen_gal_inavmsg',
               'gen_gal_utcmsg', 'verify_navmsg', 'save_auth_nav', 'count_valid_sat'):
        es.enter_context(g.stub(O+nm, mk(nm)))
    return es


@contract('A02', fns=[O+'decode', O+'set_gst_sf'], n=300, tmo=120, bytearrays=True, merging=False)
def assemble(g):
    """the fifteen parts of one sub-frame of one satellite make up its messages"""
    d = nma(g)
    d.status = 0
    lost, swap, two = cases(g, 24, lost=[-1, -1, -1, 0, 7, 14], prev=[0, 1, 2], two=[0, 1])
    prn = [36, 1][two]
    log = []
    wn, t0 = 2300, 30*g.choice('sf', [0, 1, 20159])
    parts = {}
    d.hk[prn-1], d.mack[prn-1] = g.zbuf('hk', 120), g.zbuf('mack', 480)
    with stubs(g, d, log, decode_hk=False, decode_mack=False):
        if swap:         # earlier sub-frame of which the end, or all but the start, was lost
            for k in (range(0, 9) if swap == 1 else range(1, 15)):
                g.call(O+'decode', d, bytearray([k+1, 1, 2, 3, 4]), wn-(t0 < 30), (t0-30) % W+2*k+1, prn)
        for k in range(15):
            if two:
                g.call(O+'decode', d, bytearray([99, 9, 9, 9, 9]), wn, t0+2*k, 2)
                if log and log[-1][0] == 'decode_mack' and log[-1][1] == 2:
                    del log[:]
            if k == lost or lost == -1 and swap == 1 and k < 0:
                continue
            parts[k] = g.buf('p%d' % k, 40)
            g.call(O+'decode', d, parts[k], wn, t0+2*k+1, prn)
            if k < 14:
                g.ensure('not before all parts are there', not log)
    if lost >= 0:
        g.ensure('incomplete sub-frame', not log)
        return
    g.ensure('source of the message', d.prn_a == prn)
    g.ensure('decoded once', [x[0] for x in log] == ['save_mack', 'decode_hk', 'decode_mack'])
    mk, hk = log[0], log[1]
    g.ensure('satellite', And(mk[2] == prn, hk[2] == prn, log[2][1] == prn))
    for k in range(15):
        g.ensure('parts in their place', And(g.field(hk[1], 8*k, 8) == g.field(parts[k], 0, 8), g.field(mk[1], 32*k, 32) == g.field(parts[k], 8, 32)))
    gt = resolve('gnss:time2gst')(resolve('gnss:gpst2time')(wn, t0))
    g.ensure('time of the sub-frame', And(d.gst_tow == t0, eqb(d.gst_sf, gstb(g, gt[0], t0))))


@contract('A02', fns=[O+'decode'], n=500, tmo=120, merging=False)
def subframe(g):
    """tags are used only after the root key, the chain, the table and the sequence are verified, in this order"""
    root, rk, chain_, c0, lt_, sq, slow, week = cases(g, 60, root=[0, 1, 3], rk=[0, 1], chain=[0, 1], cur=[0, 1], lut=[1, 1, 0], seq=[1, 1, 0], slow=[0, 1, 2], week=[0, 0, 1])
    d = nma(g)
    prn = 7
    d.cnt = np.zeros(36, dtype=int)
    wn, t0 = (2300, 0) if week else (2300, 30*77)
    gw = wn-1024
    import bitstruct
    gsf = bitstruct.pack('u12u20', gw, t0)
    old = bitstruct.pack('u12u20', gw-1, 300)
    d.status = root | (4 if root == 3 and c0 else 0)
    d.gst_sf_c = gsf if c0 else old
    d.key, d.key_c = b'old', b'new'
    d.nt = 5
    d.gst_sf_rx = {prn: gsf}
    d.cnt[prn-1] = 0x3fff
    d.flg_slowmac = slow > 0
    info = {0: (b't0', bytearray(2), 1), 1: (b't1', 9, 0, 1), 2: (b't2', prn, 4, 1), 3: (b't3', 12, 12, 1), 4: (b't4', 30, 5 if slow else 0, 1)}
    nav = {7: bytearray(b'n7')*4, 9: bytearray(b'n9')*4, 12: bytearray(b'nc')*4, 30: None}
    T = resolve('osnma:taginfo')
    ago = lambda s: bitstruct.pack('u12u20', *divmod(gw*W+t0-30-s, W))
    d.tag_list = [T(ago(330), 1, 3, 12, 1, b'a', 4, nav[7]), T(ago(360), 2, 3, 12, 1, b'b', 4, nav[7]), T(ago(300), 3, 4, 12, 1, b'c', 4, nav[7]),
                  T(ago(300), 4, 5, 12, 1, b'd', 4, nav[7]), T(ago(270), 5, 5, 12, 1, b'e', 4, nav[7])]
    d.tag_list += [T(ago(300), 6+k, 10+k, 12, 1, b'x%d' % k, 4, nav[7]) for k in range(15)]+[T(ago(330), 1, 3, 12, 1, b'y', 4, nav[7])]
    tl = list(d.tag_list)
    log = []

    def vroot(self):
        if rk:
            self.status |= VERIFIED
        return bool(rk)

    def vchain(self, k, w, t):
        self.status = self.status | CHAIN if chain_ else self.status & ~CHAIN
        return bool(chain_)
    who = []

    def vnav(self, t):
        who.append((t, self.prn_a))
        return t.tag != b't1'
    with stubs(g, d, log, decode_hk=False, decode_mack=True, verify_root_key=vroot, verify_key_chain=vchain, verify_maclt=bool(lt_), verify_macseq=bool(sq),
               decode_tags_info=lambda self, k: info[k], gen_gal_inavmsg=lambda self, p: nav[p], gen_gal_utcmsg=lambda self: bytearray(18), verify_navmsg=vnav,
               save_auth_nav=lambda self, r, t: r, count_valid_sat=5):
        g.call(O+'decode', d, bytearray(5), wn, t0+29, prn)
    st = [x[0] for x in log]
    ok = root == 3 or root == 1 and rk
    g.ensure('signature is checked once loaded', ('verify_root_key' in st) == (root == 1))
    check = ok and not c0
    g.ensure('chain is checked once per sub-frame, below a verified root key', st.count('verify_key_chain') == int(check))
    if check:
        x = [x for x in log if x[0] == 'verify_key_chain'][0]
        g.ensure('disclosed key and its time', And(x[1] == b'new', x[2] == gw, x[3] == t0))
    g.ensure('key in use', And(d.key == (b'new' if check and chain_ else b'old'), d.gst_sf_c == (gsf if c0 or check and chain_ else old)))
    live = check and chain_ or c0 and root == 3
    g.ensure('nothing is used without a verified chain', ('verify_maclt' in st) == bool(live))
    if live:
        g.ensure('tags belong to the previous sub-frame', d.gst_sf_p == ago(0))
    g.ensure('sequence', ('verify_macseq' in st) == bool(live and lt_))
    live = live and lt_ and sq
    if not live:
        g.ensure('no tag is used', And('verify_navmsg' not in st, 'save_auth_nav' not in st, d.tag_list == tl))
        return
    new = [(t, p) for t, p in who if t not in tl]
    g.ensure('tags with data', [(t.tag, t.prn_d, t.adkd, t.cnt, bytes(t.navmsg), p) for t, p in new] ==
             [(b't0', 7, 0, 1, b'n7'*4, 7), (b't1', 9, 0, 2, b'n9'*4, 7), (b't2', 7, 4, 3, b'\0'*18, 7)])
    g.ensure('source and time of the tags', And(*[And(t.prn_a == 7, t.gst_sf == ago(0)) for t, _ in new]))
    delayed = [(t, p) for t, p in who if t in tl]
    sv = [(x[1], x[2]) for x in log if x[0] == 'save_auth_nav']
    g.ensure('every outcome is recorded with its tag', And(len(sv) == len(who), *[And(r == (t.tag != b't1'), t is q) for (r, t), (q, _) in zip(sv, who)]))
    g.ensure('time data', (d.status & 8 != 0))
    if not slow:
        g.ensure('no delayed tags', And(not delayed, d.tag_list == tl))
        return
    g.ensure('delayed tags are verified once, after 300 s, with their source', [(t.tag, p) for t, p in delayed] == [(b'c', 4), (b'd', 5)]+[(b'x%d' % k, 10+k) for k in range(15)])
    g.ensure('delayed tags kept', And(len(d.tag_list) == 2, d.tag_list[0] is tl[4], d.tag_list[1].tag == b't3', d.tag_list[1].gst_sf == ago(0),
                                      d.tag_list[1].prn_d == 12, d.tag_list[1].prn_a == 7, d.tag_list[1].cnt == 4, bytes(d.tag_list[1].navmsg) == b'nc'*4))


# ------------------------------------------------- a transmitter of our own
class Tx:
    """satellites which broadcast navigation data, tags and keys; independent of the code under test"""

    def __init__(self, rng, wn, t0, lt=40, maclt=27, mf=0, hf=0, ago=0, sats=(3, 11, 24, 36)):
        import hashlib
        from cryptography.hazmat.primitives.asymmetric import ec
        self.h = hashlib.sha256 if hf == 0 else hashlib.sha3_256
        self.rng, self.wn, self.t0, self.lt, self.maclt, self.mf, self.hf, self.sats = rng, wn-1024, t0, lt, maclt, mf, hf, list(sats)
        self.priv = ec.derive_private_key(rng.getrandbits(200)+5, ec.SECP256R1())
        self.n = 40
        self.alp = rng.randbytes(6)
        # root key some hours before
        self.k0 = (self.wn*W+t0)//3600*3600-3600*ago
        self.first = (self.wn*W+t0-self.k0)//30+1       # index of the key of the first sub-frame
        self.keys = self.chain(rng.randbytes(16))
        self.dsm = self.kroot(self.keys[0], self.priv)
        self.nav, self.over = {}, {}

    def gst(self, t):
        return (t//W << 20 | t % W).to_bytes(4, 'big')

    def chain(self, last):
        k, out = last, {}
        for i in range(self.first+self.n, -1, -1):
            out[i] = k
            k = self.h(k+self.gst(self.k0+30*(i-2))+self.alp).digest()[:16]
        return out

    def kroot(self, key, priv, pkid=2, did=1):
        from cryptography.hazmat.primitives.asymmetric import ec, utils
        from cryptography.hazmat.primitives import hashes
        v = 0
        for w, x in ((4, 2), (4, pkid), (2, 0), (2, 0), (2, self.hf), (2, self.mf), (4, 4), (4, {20: 5, 24: 6, 28: 7, 32: 8, 40: 9}[self.lt]), (8, self.maclt), (4, 0),
                     (12, self.k0//W), (8, self.k0 % W//3600)):
            v = v << w | x
        body = v.to_bytes(7, 'big')+self.alp+key
        m = bytes([self.hdr])+body[1:]
        r, s = utils.decode_dss_signature(priv.sign(m, ec.ECDSA(hashes.SHA256() if self.hf == 0 else hashes.SHA3_256())))
        ds = r.to_bytes(32, 'big')+s.to_bytes(32, 'big')
        return did, body+ds+self.h(m+ds).digest()[:104-len(body)-64]

    hdr = 2 << 6 | 1 << 1

    def words(self, prn, t, fake=False):
        """navigation words of a sub-frame: the same for 120 s"""
        q = (prn, t//120)
        if q not in self.nav:
            iod = (t//120*7+prn) % 1024
            w = {}
            for mt in range(1, 11):
                x = self.rng.getrandbits(128) & (1 << 122)-1 | mt << 122
                if mt <= 4:
                    x = x & ~(1023 << 112) | iod << 112
                w[mt] = x
            self.nav[q] = (iod, w)
        return self.over.get((prn, t), self.nav[q]) if fake else self.nav[q]

    def navdata(self, prn, t, fake):
        w = self.words(prn, t, fake)[1]
        v = 0
        for mt, n in ((1, 120), (2, 120), (3, 122), (4, 120), (5, 67)):
            v = v << n | (w[mt] >> 122-n) & (1 << n)-1
        return v, 549

    def utc(self, prn, t, fake):
        w = self.words(prn, t, fake)[1]
        return (w[6] >> 23 & (1 << 99)-1) << 42 | w[10] & (1 << 42)-1, 141

    def mac(self, key, m):
        if self.mf:
            from cryptography.hazmat.primitives import cmac
            from cryptography.hazmat.primitives.ciphers import algorithms
            c = cmac.CMAC(algorithms.AES(key))
            c.update(m)
            return c.finalize()
        import hmac
        import hashlib
        return hmac.new(key, m, hashlib.sha256).digest()

    def mack(self, prn, t, keys=None):
        fake = keys is not None
        keys = keys or self.keys
        i = (t-self.k0)//30+1
        half = 0 if t % 60 == 0 else 1
        e = seq(self.maclt, half)
        v, flex, first = 0, b'', None
        for k, c in enumerate(e):
            if c == 'F':
                c = ['00E', '00S', '12E'][self.rng.randrange(3)]
                fl = True
            else:
                fl = False
            adkd = int(c[:2])
            pd = prn if c[2] == 'S' else self.rng.choice([s for s in self.sats if s != prn])
            key = keys[i+1] if adkd != 12 else keys[i+11]
            d, n = self.utc(prn, t-30, fake) if adkd == 4 else self.navdata(pd, t-30, fake)
            x, w = (prn, 8) if k == 0 else (pd << 8 | prn, 16)
            for a, b_ in ((int.from_bytes(self.gst(t), 'big'), 32), (k+1, 8), (self.hdr >> 6, 2), (d, n)):
                x, w = x << b_ | a, w+b_
            p = -w % 8
            tg = int.from_bytes(self.mac(key, (x << p).to_bytes((w+p)//8, 'big')), 'big')
            ml = (128 if self.mf else 256)
            tg >>= ml-self.lt
            info = pd << 8 | adkd << 4 | 1
            if fl:
                flex += info.to_bytes(2, 'big')
            if k == 0:
                v, first = tg << 16, True
            else:
                v = v << self.lt+16 | tg << 16 | info
        ms = int.from_bytes(self.mac(keys[i+1], bytes([prn])+self.gst(t)+flex)[:2], 'big') >> 4
        v |= (ms << 4 | 1) << (self.lt+16)*(len(e)-1)
        used = (self.lt+16)*len(e)
        v = v << 480-used | int.from_bytes(keys[i], 'big') << 480-used-128
        return v.to_bytes(60, 'big')

    def subframe(self, prn, t, blk, dsm=None, keys=None):
        """fifteen page contents: navigation word and OSNMA field"""
        did, body = dsm or self.dsm
        hk = bytes([self.hdr, did << 4 | blk])+body[13*blk:13*blk+13]
        mk = self.mack(prn, t, keys)
        w = self.words(prn, t, True)[1]
        for k, mt in enumerate([2, 4, 6, 9, 10, 0, 0, 0, 0, 0, 1, 3, 5, 7, 8]):
            yield (w[mt] if mt else 0).to_bytes(16, 'big'), bytes([hk[k]])+mk[4*k:4*k+4]


def receive(g, d, tx, nsf, attack=None, on=5):
    """feeds the decoder; returns the issues broadcast by (satellite, sub-frame)"""
    a0 = tx.wn*W+tx.t0
    bad = tx.sats[1]
    forged = None
    if attack in ('chain', 'root', 'mixed'):
        forged = tx.chain(tx.rng.randbytes(16))
    sent, fake = set(), set()
    fk = None
    if attack == 'root':
        fk = tx.kroot(forged[0], __import__('cryptography.hazmat.primitives.asymmetric.ec', fromlist=['x']).derive_private_key(7, tx.priv.curve), did=5)
    if attack == 'mixed':            # our root key with the genuine signature
        did, body = tx.dsm
        x = body[:13]+forged[0]+body[29:93]
        fk = did, x+tx.h(bytes([tx.hdr])+x[1:]).digest()[:11]
    for q in range(nsf):
        t = a0+30*q
        gen = {}
        order = list(tx.sats)
        if attack:
            order.remove(bad)
            order.insert(0, bad)
        for j, prn in enumerate(order):
            use, dsm = None, None
            blk = (q*len(order)+j) % 8
            if attack == 'data' and prn == bad and q >= on or attack in ('chain', 'root', 'mixed') and prn == bad and q >= on+1:
                iod, w = tx.nav.get((prn, t//120)) or tx.words(prn, t)
                iod = (iod+500) % 1024
                w = {m: (x & ~(1023 << 112) | iod << 112 if m <= 4 else x) ^ 1 << tx.rng.randrange(60, 100) for m, x in w.items()}
                if attack != 'data':
                    tx.over[prn, t] = (iod, w)
                fake.add((prn, iod))
            else:
                iod, w = tx.words(prn, t)
                sent.add((prn, iod, q))
            if attack in ('chain', 'root', 'mixed') and q >= on and prn == bad:
                use = forged
                dsm = fk if attack != 'chain' else None
            if attack == 'root' and q >= on:
                dsm, blk = fk, blk
            if attack == 'mixed':
                dsm = fk if q < 2 or prn == bad else None
            pages = list(tx.subframe(prn, t, blk, dsm, use))
            if attack == 'data' and prn == bad and q >= on:
                pages = [(w[p[0][0] >> 2].to_bytes(16, 'big') if p[0][0] >> 2 in w else p[0], p[1]) for p in pages]
            gen[prn] = pages
        for k in range(15):
            tt = t+2*k+1
            for prn in order:
                n, f = gen[prn][k]
                d.prn_a = prn
                g.call(O+'save_gal_inav', d, bytearray(n), prn, tt % W)
                g.call(O+'decode', d, bytearray(f), tt//W+1024, tt % W, prn)
    return sent, fake


@contract('A02', fns=[O+'decode', O+'process_mac', O+'process_hash', O+'verify_navmsg'], n=30, prove=False,
          why='whole receiver with the real cryptographic functions: executed against a transmitter of our own')
def reception(g):
    import random
    rng = random.Random(g.int('seed', 0, 10**9))
    attack = g.choice('attack', ['', '', 'data', 'chain', 'root', 'mixed', 'key'])
    lt, maclt = g.choice('kind', [(40, 27), (40, 33), (40, 34), (40, 35), (32, 31), (20, 31), (28, 31)])
    if maclt == 31:         # five tags: longer tags only fit this key length
        lt, maclt = 40, 27
    mf, ago = g.choice('mf', [0, 1]), g.choice('ago', [0, 3, 40])
    wn = 2300
    t0 = g.choice('t0', [0, 30, 604800-120, 345600, 604800-150])
    tx = Tx(rng, wn, t0, lt, maclt, mf, 0, ago)
    d = nma(g)
    d.flg_slowmac = True
    d.pk_list = {2: tx.priv.public_key()} if attack != 'key' else {2: Tx(rng, wn, t0).priv.public_key()}
    nsf = 18
    sent, fake = receive(g, d, tx, nsf, attack)
    for prn, iod in fake:
        g.ensure('forged data are never authentic', not g.call(O+'chk_nav', d, prn, iod))
    if attack == 'key':
        g.ensure('nothing is authentic without the public key', And(d.vstatus == {}, d.status & ~1 == 0, d.nsat == 0))
        return
    if attack in ('root', 'mixed'):
        return
    # the root key is complete after the second sub-frame
    for prn, iod, q in sent:
        if 3 <= q <= nsf-3 and (attack == '' or prn != tx.sats[1]):
            g.ensure('genuine data are authenticated', g.call(O+'chk_nav', d, prn, iod))
    allowed = {(p, i) for p, i, _ in sent} | {(37, 0)}
    g.ensure('nothing else is', {(p, i) for p in d.vstatus for i in d.vstatus[p]} <= allowed)
    g.ensure('state', And(d.status & 0xf == 0xf, d.nsat == len(tx.sats)))
