ENG = '''
import numpy as np
from copy import deepcopy
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
def engine(nf=1, pmode=1):
    nav = Nav(nf); nav.pmode = pmode; nav.monlevel = 0
    return pppos(nav, np.array([-3957e3, 3310e3, 3737e3]), config=deepcopy(default_config)), nav
'''
plant('n01-iod-word4', 'N01',
      [('rawnav.py', "        if iodnav1 != iodnav2 or iodnav1 != iodnav3 or iodnav1 != iodnav4:\n            return None\n\n        week_gst, tow = bs.unpack_from('u12u20', buff, 128*5+73)\n        eph.week = week_gst + 1024\n\n        toe, M0, e, sqrtA",
        "        if iodnav1 != iodnav2 or iodnav1 != iodnav3:\n            return None\n\n        week_gst, tow = bs.unpack_from('u12u20', buff, 128*5+73)\n        eph.week = week_gst + 1024\n\n        toe, M0, e, sqrtA")],
      '''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.rawnav import RawNav
def word(n, iod):
    w = bytearray(16)
    bs.pack_into('u6', w, 0, n)
    if n < 5:
        bs.pack_into('u10', w, 6, iod)
    if n == 1:
        bs.pack_into('u14', w, 16, 60)
        bs.pack_into('u32', w, 96, 0xAA000000)
    if n == 5:
        bs.pack_into('u12u20', w, 73, 1250, 3600)
    m = bytearray(29)
    bs.pack_into('u1u1', m, 0, 0, 0)
    for k in range(14):
        bs.pack_into('u8', m, 2+8*k, w[k])
    for k in range(2):
        bs.pack_into('u8', m, 2+8*15+8*k, w[14+k])
    return bytes(m)
d = RawNav(); sat = id2sat('E05'); t = gpst2time(2274, 3600.0)
def feed(seq):
    out = None
    for n, iod in seq:
        out = d.decode_gal_inav(2274, t, sat, 0, word(n, iod))
    return out
assert feed([(1, 7), (2, 7), (3, 7), (4, 7), (5, 0)]) is not None
# issue 8 with word 4 lost
assert feed([(1, 8), (2, 8), (3, 8), (5, 0)]) is None
assert feed([(4, 8)]) is not None
''', 'word type 4 of a new issue is lost while the others arrive', 'ephemeris whose clock terms belong to another issue than its orbit')
plant('a02-week-wrap', 'A02',
      [('osnma.py', "                gst_tow += 86400*7\n                gst_wn -= 1", "                gst_tow += 86400*7")],
      '''
import hashlib, struct
from cssrlib.osnma import osnma
import tempfile
o = osnma.__new__(osnma)
o.klen_t = [96, 104, 112, 120, 128, 160, 192, 224, 256]
o.ks = 4; o.hf = 0; o.alp = bytes(range(6))
def h(key, wn, tow):
    return hashlib.sha256(key+((wn << 20) | tow).to_bytes(4, 'big')+o.alp).digest()[:16]
k = bytes(range(16))
want = h(h(h(k, 1300, 0), 1299, 604770), 1299, 604740)
o.process_hash = lambda m: hashlib.sha256(m).digest()
assert o.update_key_chain(k, 1300, 30, 3) == want
assert o.update_key_chain(k, 1300, 60, 1) == h(k, 1300, 30)
''', 'a chain of keys that crosses the start of a week', 'the week hashed with a key of the previous week is wrong, so valid keys after the rollover are refused')
plant('a02-flex-half', 'A02',
      [('osnma.py', "            if mode_t[k+ofst] != 2:\n                continue", "            if mode_t[k] != 2:\n                continue")],
      '''
import hmac, hashlib
import bitstruct as bs
from cssrlib.osnma import osnma
o = osnma.__new__(osnma)
ref = osnma()
for a in ('mode_t', 'tag_len_t', 'klen_t'):
    setattr(o, a, getattr(ref, a))
lt, nt = 40, 6
key = bytes(range(16))
n = 0
for maclt, row in ref.mode_t.items():
    if len(row) != 2*nt:
        continue
    for tow in (60, 90):
        o.maclt = maclt; o.ts = 9; o.ks = 4; o.mf = 0; o.status = 255; o.key = key; o.nt = nt; o.prn_a = 7
        assert o.tag_len_t[9] == lt
        o.gst_sf_p = bs.pack('u12u20', 1300, tow)
        tags = bytearray((lt+16)*nt//8)
        info = []
        for k in range(nt):
            x = bytes([16*k+1, 32+k]); tags[k*7+5:k*7+7] = x; info.append(x)
        of = 0 if tow % 60 == 0 else nt
        msg = bytes([7])+o.gst_sf_p+b''.join(info[k] for k in range(nt) if row[k+of] == 2)
        mac = hmac.new(key, msg, hashlib.sha256).digest()
        v = (mac[0] << 4) | (mac[1] >> 4)
        tags[5] = v >> 4; tags[6] = (v & 15) << 4
        if row[of] == 2:
            continue
        o.tag = bytes(tags)
        assert o.verify_macseq(), (maclt, tow)
        n += 1
assert n
''', 'a MAC look-up table whose flexible slots differ between the two sub-frames of a minute', 'the sequence check covers the wrong tag infos in the second half of each minute, refusing genuine tags')
plant('e01-issue-zero', 'E01',
      [('ephemeris.py', "if eph_.sat != sat or (iode >= 0 and iode != eph_.iode):", "if eph_.sat != sat or (iode > 0 and iode != eph_.iode):")],
      '''
from cssrlib.gnss import *
from cssrlib.ephemeris import findeph
def e(iode, tow):
    x = Eph(3); x.iode = iode; x.toe = gpst2time(2200, tow); x.toc = x.toe; x.mode = 0
    return x
l = [e(17, 3600), e(0, 7200)]
t = gpst2time(2200, 4000)
assert findeph(l, t, 3, 17).iode == 17
assert findeph(l, t, 3).iode == 17
assert findeph(l, t, 3, 0).iode == 0
assert findeph(l[:1], t, 3, 0) is None
''', 'corrections that refer to issue of data 0', 'issue 0 is treated as no issue requested, so another ephemeris is used')
plant('e02-rel-cnav2', 'E02',
      [('ephemeris.py', "    Ak = eph.A\n    if eph.mode > 0:\n        dna += 0.5*dt*eph.delnd\n        Ak += dt*eph.Adot\n    n = n0+dna\n    M = eph.M0+n*dt\n    _, sE",
        "    Ak = eph.A\n    if eph.mode == 1:\n        dna += 0.5*dt*eph.delnd\n        Ak += dt*eph.Adot\n    n = n0+dna\n    M = eph.M0+n*dt\n    _, sE")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.ephemeris import eph2rel
def rel(mode, delnd):
    x = Eph(3); x.mode = mode; x.toe = gpst2time(2200, 3600); x.toc = x.toe; x.e = 0.02; x.A = 26560e3; x.M0 = 1.0
    x.deln = 0.0; x.delnd = delnd; x.Adot = 0.0; x.toes = 3600
    return eph2rel(gpst2time(2200, 7200), x)
for m in (1, 2, 3):
    assert rel(m, 1e-9) == rel(1, 1e-9), m
    assert rel(m, 1e-9) != rel(m, 0.0), m
assert rel(0, 1e-9) == rel(0, 0.0)
''', 'ephemerides of GPS CNAV-2 (or BeiDou CNAV2/3) away from their epoch', 'the relativistic correction ignores the mean motion rate for modes above 1')
plant('v01-degradation-iodp', 'V01',
      [('sbas.py', "        latency, iodp = bs.unpack_from('u4u2', msg, i)\n        i += 8\n        if iodp != self.iodp:", "        latency, iodp = bs.unpack_from('u4u2', msg, i)\n        i += 8\n        if iodp < self.iodp:")],
      '''
import bitstruct as bs
from cssrlib.sbas import sbasDec
d = sbasDec()
d.sat = [1, 2, 3]; d.ai = {1: 1, 2: 2, 3: 3}
for own in range(4):
    for iodp in range(4):
        d.iodp = own; d.ai = {1: 1, 2: 2, 3: 3}
        m = bytearray(32)
        bs.pack_into('u4u2u2u4u4u4', m, 14, 0, iodp, 0, 9, 10, 11)
        d.decode_sbas_fast_degradation(bytes(m), 14)
        want = {1: 9, 2: 10, 3: 11} if iodp == own else {1: 1, 2: 2, 3: 3}
        assert d.ai == want, (own, iodp, d.ai)
''', 'a degradation message of the next mask arriving before the mask (issue higher than the current one)', 'degradation factors of another mask are given to the satellites of the current one')
plant('f04-gf-sign', 'F04',
      [('pppssr.py', "                            abs(gf1-gf0) > self.nav.thresslip:", "                            gf1-gf0 > self.nav.thresslip:")],
      ENG+'''
def run(jump):
    o, nav = engine(2)
    nav.tidecorr = uTideModel.NONE if hasattr(uTideModel, 'NONE') else nav.tidecorr
    obs = Obs(); obs.t = gpst2time(2200, 100.0); nav.t = obs.t
    obs.sat = np.array([3]); s = uGNSS.GPS
    obs.sig = {s: {uTYP.C: [rSigRnx('GC1C'), rSigRnx('GC2W')], uTYP.L: [rSigRnx('GL1C'), rSigRnx('GL2W')], uTYP.S: [rSigRnx('GS1C'), rSigRnx('GS2W')]}}
    rr = nav.x[0:3].copy()
    rs = (rr*4.0).reshape(1, 3)
    f1, f2 = 1575.42e6, 1227.6e6
    obs.P = np.full((1, 2), 2e7); obs.S = np.full((1, 2), 45.0); obs.lli = np.zeros((1, 2), dtype=int)
    obs.L = np.array([[2e7*f1/rCST.CLIGHT, 2e7*f2/rCST.CLIGHT]])
    nav.gf[2] = 5.0-jump
    obs.L[0, 0] += 5.0*f1/rCST.CLIGHT
    return list(o.qcedit(obs, rs, np.zeros(1), np.zeros(1, dtype=int)))
assert run(0.0) == [3], run(0.0)
assert run(0.3) == [], run(0.3)
assert run(-0.3) == [], run(-0.3)
''', 'a cycle slip that lowers the geometry-free combination', 'slips of one sign are not detected')
plant('p01-drift', 'P01',
      [('pntpos.py', "            Phi[0:3, 3:6] = np.eye(3)*tt\n            Phi[6, 7] = tt", "            Phi[0:3, 3:6] = np.eye(3)*tt")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pntpos import stdpos
nav = Nav(1); nav.pmode = 1; nav.monlevel = 0
p = stdpos(nav, np.array([-3957e3, 3310e3, 3737e3]))
nav.t = gpst2time(2200, 100.0)
obs = Obs(); obs.t = gpst2time(2200, 104.0); obs.sat = np.array([3])
p67, p7 = nav.P[6, 7], nav.P[7, 7]
p6 = nav.P[6, 6]
p.udstate(obs)
assert abs(nav.P[6, 7]-(p67+4*p7)) < 1e-9, nav.P[6, 7]
assert abs(nav.P[6, 6]-(p6+16*p7+4*nav.q[6])) < 1e-6
''', 'kinematic mode: covariance between clock bias and drift', 'the clock bias covariance is not propagated with the drift')
plant('h02-reset', 'H02',
      [('cssr_has.py', "                    print(f\" reset mid={self.mid_} ms={self.ms_} tow={tow}\")\n                self.rec = []\n                self.mid_ = -1", "                    print(f\" reset mid={self.mid_} ms={self.ms_} tow={tow}\")\n                self.mid_ = -1")],
      '''
import numpy as np, galois
from cssrlib.cssr_has import cnav_msg
GF = galois.GF(256)
gm = np.array(galois.ReedSolomon(255, 32).G).T.astype(np.uint8)
def page(mid, ms, pid, data):
    v = (1 << 22) | (1 << 18) | (mid << 13) | ((ms-1) << 8) | pid
    for x in data:
        v = (v << 8) | int(x)
    v <<= 2
    return {'nav': v.to_bytes(58, 'big').hex()}
rng = np.random.default_rng(1)
def enc(ms):
    m = rng.integers(0, 256, (ms, 53)).astype(np.uint8)
    return m, np.array(GF(gm[:, :ms])@GF(m))
c = cnav_msg(); c.gMat = gm
m1, e1 = enc(4)
m2, e2 = enc(3)
assert c.decode_cnav(0, [page(3, 4, 40, e1[39])]) is None
for t in range(1, 12):
    assert c.decode_cnav(t, []) is None
out = None
for t, p in enumerate((40, 41, 42)):
    r = c.decode_cnav(20+t, [page(9, 3, p, e2[p-1])])
    out = r if r is not None else out
assert out is not None and bytes(out)[:159] == m2.tobytes()
''', 'a message that is abandoned because its pages stop arriving, followed by another message', 'pages of the abandoned message are taken for pages of the next one')
plant('l01-permutation', 'L01',
      [('mlambda.py', "            L[j+2:, [j+1, j]] = L[j+2:, [j, j+1]]", "            L[j+2:j+4, [j+1, j]] = L[j+2:j+4, [j, j+1]]")],
      '''
import numpy as np
from cssrlib.mlambda import ldldecom, reduction
rng = np.random.default_rng(3)
for n in (2, 3, 4, 6, 9):
    for _ in range(20):
        A = rng.normal(size=(n, n)); Q = A@A.T+0.05*np.eye(n)
        L, d = ldldecom(Q)
        L, d, Z = reduction(L, d)
        assert np.allclose(Z.T@Q@Z, L.T@np.diag(d)@L, atol=1e-6*n), n
''', 'five or more ambiguities with a permutation near the first', 'columns are swapped incompletely, so the transformed covariance does not belong to the transformation')
plant('h04-slot-limit', 'H04',
      [('cssr_pvs.py', "        elif slot >= 75 and slot <= 110:", "        elif slot >= 75 and slot <= 111:")],
      '''
from cssrlib.cssr_pvs import *
import tempfile, os
d = cssr_pvs.__new__(cssr_pvs)
from cssrlib.gnss import *
for s in range(256):
    sat = d.slot2sat(s)
    if 111 <= s < 120 or s > 195 or 33 <= s <= 37 or 70 <= s <= 74:
        assert sat == 0, (s, sat)
assert d.slot2sat(110) == prn2sat(uGNSS.GAL, 36)
''', 'the undefined slot 111', 'corrections of an undefined slot are stored for a satellite that does not exist')
plant('f06-hold-sign', 'F06',
      [('pppssr.py', "                        nb += 1\n                        nav.fix[sat_j-1, f] = 2\n                k += n", "                        nb += 1\n                        nav.fix[sat_j-1, f] = 2\n                    else:\n                        nav.fix[sat_j-1, f] = 2\n                k += n")],
      ENG+'''
o, nav = engine(1)
sats = [1, 2, 3]
for s in sats:
    nav.x[o.IB(s, 0, nav.na)] = 10.0*s
    nav.vsat[s-1, 0] = 1
    nav.el[s-1] = 0.1 if s == 3 else 0.9
nav.elmaskar = 0.3
ix = o.ddidx(nav, np.array(sats))
assert ix.tolist() == [[o.IB(1, 0, nav.na), o.IB(2, 0, nav.na)]], ix
assert nav.fix[0, 0] == 2 and nav.fix[1, 0] == 2 and nav.fix[2, 0] < 2, nav.fix[:3, 0]
''', 'a satellite below the ambiguity mask besides two above it', 'an ambiguity that takes no part in the resolution is marked fixed, shifting the restored integers')
plant('d01-slot-issue', 'D01',
      [('dgps.py', "        iodp = bs.unpack_from('u2', msg, 223)[0]\n        if iodp != self.iodp:\n            return -1\n        i = 14\n        iodi, mask = bs.unpack_from('u2u23', msg, i)\n        i += 25\n\n        self.iodn = {}\n\n        self.iodi = iodi  # issue of data",
        "        iodp = bs.unpack_from('u2', msg, 223)[0]\n        if iodp != self.iodp:\n            return -1\n        i = 14\n        iodi, mask = bs.unpack_from('u2u23', msg, i)\n        i += 25\n\n        if iodi != self.iodi:\n            self.iodn = {}\n\n        self.iodi = iodi  # issue of data")],
      '''
import bitstruct as bs
from cssrlib.dgps import dgpsDec
d = dgpsDec.__new__(dgpsDec)
d.iodp = 1; d.iodi = 2; d.sat = [1, 2, 3]; d.nsat = 3; d.iodn = {1: 5, 2: 6, 3: 7}; d.monlevel = 0
m = bytearray(32)
bs.pack_into('u2u23u8u8', m, 14, 2, 0b101 << 20, 9, 8)
bs.pack_into('u2', m, 223, 1)
d.decode_mt49(bytes(m), 14)
assert d.iodn == {1: 9, 3: 8}, d.iodn
''', 'a repeated issue message with the same IODI that lists fewer satellites', 'a satellite that no longer has an issue of data keeps the old one')
plant('h05-inet', 'H05',
      [('cssr_mdc.py', "            if r >= reg:\n                break", "            if r > reg:\n                break")],
      '''
from cssrlib.cssr_mdc import cssr_mdc
d = cssr_mdc.__new__(cssr_mdc)
d.narea_t = cssr_mdc().narea_t
seen = {}
for r in d.narea_t:
    for a in range(1, d.narea_t[r]+1):
        i = d.get_inet(r, a)
        assert i not in seen, (r, a, seen[i])
        seen[i] = (r, a)
r0 = list(d.narea_t)[0]
assert d.get_inet(r0, 3) == 3
''', 'any region', 'indices') if False else None
