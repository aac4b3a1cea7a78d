plant('b01-single-bit', 'B01',
      [('gnss.py', "    if r > 0:\n        fmt = 'u'+str(r)\n", "    if r > 1:\n        fmt = 'u'+str(r)\n")],
      '''
from cssrlib.gnss import copy_buff
for n in list(range(1, 100)):
    src = bytes([0xff]*20)
    dst = bytearray(20)
    copy_buff(src, dst, 5, 9, n)
    bits = ''.join('{:08b}'.format(x) for x in dst)
    assert bits == '0'*9+'1'*n+'0'*(160-9-n), n
''', 'a length which leaves a remainder of exactly one bit behind the last 32-bit word', 'the last bit of the string is not copied')
plant('t01-march-leap', 'T01',
      [('gnss.py', "    if year % 4 == 0 and mon >= 3:\n        days += 1\n    sec = int(ep[5])", "    if year % 4 == 0 and year % 100 != 0 and mon >= 3:\n        days += 1\n    sec = int(ep[5])")],
      '''
from cssrlib.gnss import *
import datetime
for y in range(1970, 2100):
    for m in (1, 2, 3, 12):
        d = (datetime.datetime(y, m, 1)-datetime.datetime(1970, 1, 1)).days
        t = epoch2time([y, m, 1, 0, 0, 0])
        assert t.time == d*86400 and t.sec == 0.0, (y, m)
''', 'a date after February of the year 2000', 'instants of the year 2000 from March on are a day early')
plant('t03-quarter-week', 'T03',
      [('gnss.py', "    if tt > dt/2.0:\n        return timeadd(t, -dt)\n    return t", "    if tt > dt//2:\n        return timeadd(t, -dt)\n    return t")],
      '''
from cssrlib.gnss import *
ref = gpst2time(2200, 1000.0)
for p in (rCST.WEEK_SEC, rCST.DAY_SEC, 25, 7.0, 900.0):
    for f in (-1.4, -0.9, -0.51, -0.49, 0.0, 0.3, 0.4899, 0.49, 0.51, 0.9, 1.4):
        t = adjtime(timeadd(ref, p*f), ref, p)
        assert abs(timediff(t, ref)) <= p/2+1e-6, (p, f, timediff(t, ref))
''', 'an odd period and a difference just below half of it', 'an instant which is already nearest to the reference is moved a whole period away')
plant('c04-open-class', 'C04',
      [('cssrlib.py', "        if cl == 7 and val == 7:\n            y = 5.4665", "        if cl == 7 and val >= 5:\n            y = 5.4665")],
      '''
from cssrlib.cssrlib import cssr
c = cssr.__new__(cssr)
for cl in range(8):
    for v in range(8):
        y = c.quality_idx(cl, v)
        if (cl, v) == (0, 0):
            assert y != y
        elif (cl, v) == (7, 7):
            assert y == 5.4665
        else:
            assert abs(y-(3**cl*(1+v*0.25)-1)*1e-3) < 1e-12, (cl, v, y)
''', 'class 7 with value 5', 'the accuracy 5.4665 m stands for three indices')
plant('c06-half-hour', 'C06',
      [('cssrlib.py', "            self.tow0 = self.tow//3600*3600\n        else:\n            dtow", "            self.tow0 = self.tow//1800*1800\n        else:\n            dtow")],
      '''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.cssrlib import cssr, sCSSR
for tow, off in ((345600, 30), (345600+1770, 1795), (345600+1830, 1835), (345600+3570, 3599)):
    c = cssr(); c.week = 2200; c.monlevel = 0
    b = bytearray(20)
    bs.pack_into('u20u4u1u4', b, 0, tow, 2, 0, 3)
    c.decode_head(bytes(b), 0, sCSSR.MASK)
    b = bytearray(20)
    bs.pack_into('u12u4u1u4', b, 0, off, 2, 0, 3)
    c.decode_head(bytes(b), 0)
    assert c.tow == 345600+off, (tow, off, c.tow)
''', 'a mask sent in the second half of an hour', 'the corrections following it are dated half an hour late')
plant('c07-fourth-point', 'C07',
      [('cssrlib.py', ">= 0 and s2*(vn2@", ">= 0 or s2*(vn2@")],
      '''
import numpy as np
from cssrlib.cssrlib import cssr
def grid(pts):
    g = np.zeros(len(pts), dtype=[('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'), ('alt', 'f8')])
    for k, (la, lo) in enumerate(pts):
        g[k] = (1, k+1, la, lo, 0.0)
    return g
c = cssr.__new__(cssr)
# at the equator: receiver inside the cell 1,2,3,5; point 4 lies outside on the side of 2
c.grid = grid([(0.0, 0.0), (0.5, 0.0), (0.0, 0.6), (-0.45, 0.35), (0.5, 0.6)])
c.find_grid_index(np.array([np.deg2rad(0.1), np.deg2rad(0.15), 0.0]))
assert set(c.grid_index[:3]) == {1, 2, 3}, c.grid_index
assert len(c.grid_index) == 4 and c.grid_index[3] == 5, c.grid_index
''', 'a network whose fourth nearest point lies on the far side of only one of the two baselines', 'a grid point outside the cell of the receiver takes part in the interpolation')
plant('f02-glo-channel', 'F02',
      [('pppssr.py', "lamj = sig.wavelength(self.nav.glo_ch[sat[j]])", "lamj = sig.wavelength(self.nav.glo_ch[sat[i]])")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
nav = Nav(nf=1)
p = pppos(nav, np.array([4e6, 1e6, 4.8e6]))
nav.monlevel = 0
nav.glo_ch = {prn2sat(uGNSS.GLO, k+1): c for k, c in enumerate((-7, 2, 6))}
sat = np.array(sorted(nav.glo_ch))
class O: pass
obs = O(); obs.t = gpst2time(2200, 1000.0); obs.sat = sat
obs.sig = {uGNSS.GLO: {uTYP.C: [rSigRnx('RC1C')], uTYP.L: [rSigRnx('RL1C')], uTYP.S: [rSigRnx('RS1C')]}}
el = np.array([0.5, 1.0, 0.7]); e = np.eye(3)
for k, s in enumerate(sat):
    nav.x[p.IB(s, 0, nav.na)] = 100.0+k
y = np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])
v, H, R = p.sdres(obs, nav.x[:3].tolist() and nav.x, y, e, sat, el)
s = rSigRnx('RL1C')
for r, j in enumerate((0, 2)):
    h = H[r]
    assert abs(h[p.IB(sat[1], 0, nav.na)]-s.wavelength(2)) < 1e-9
    assert abs(h[p.IB(sat[j], 0, nav.na)]+s.wavelength(nav.glo_ch[sat[j]])) < 1e-9
''', 'GLONASS satellites on different frequency channels', 'the carrier of one satellite is scaled with the wavelength of the other')
plant('f03-gain-noise', 'F03',
      [('pppssr.py', "        P = IKH@P@IKH.T + K@R@K.T", "        P = IKH@P@IKH.T + K@np.diag(np.diag(R))@K.T")],
      '''
import numpy as np
from cssrlib.pppssr import pppos
p = pppos.__new__(pppos)
P = np.diag([4.0, 9.0, 1.0]); H = np.array([[1, 0.5, 0], [0.2, 1, 1]])
for R in (np.diag([0.5, 0.2]), np.array([[0.5, 0.3], [0.3, 0.6]])):
    x, Pn, S = p.kfupdate(np.zeros(3), P.copy(), H, np.array([1.0, -1.0]), R)
    K = P@H.T@np.linalg.inv(H@P@H.T+R)
    assert np.allclose(Pn, P-K@H@P)
''', 'correlated noise, as differencing against one reference satellite makes it', 'the covariance after the update is not that of the estimate')
plant('f06-mark-frequency', 'F06',
      [('pppssr.py', "or nav.vsat[sat_j-1, f] == 0:\n                        continue\n                    if nav.el[sat_j-1]", "or nav.vsat[sat_j-1, 0] == 0:\n                        continue\n                    if nav.el[sat_j-1]")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
p = pppos.__new__(pppos)
nav = Nav(nf=2)
nav.nf = 2
nav.na = 0
nav.nx = 2*uGNSS.MAXSAT
nav.x = np.zeros(nav.nx)
nav.elmaskar = 0.2
nav.fix = np.zeros((uGNSS.MAXSAT, 2), dtype=int)
nav.vsat = np.zeros((uGNSS.MAXSAT, 2), dtype=int)
nav.el = np.ones(uGNSS.MAXSAT)
p.nav = nav
sats = [1, 2, 3, 4]
for s in sats:
    for f in range(2):
        nav.x[f*uGNSS.MAXSAT+s-1] = 1.0
        nav.vsat[s-1, f] = 1
nav.vsat[2, 1] = 0
ix = p.ddidx(nav, np.array(sats))
got = {tuple(int(v) for v in r) for r in ix}
M = uGNSS.MAXSAT
assert got == {(0, 1), (0, 2), (0, 3), (M, M+1), (M, M+3)}, got
''', 'a satellite whose second frequency gave no valid phase while its first did', 'its unused ambiguity is offered for fixing')
plant('g01-dop-azimuth', 'G01',
      [('gnss.py', "    for i in range(nm):\n        if el[i] < elmin:\n            continue\n        cel = cos", "    for i in range(nm):\n        if el[i] < elmin or (az[i] < 0 and el[i] <= elmin):\n            continue\n        cel = cos")],
      '''
import numpy as np
from cssrlib.gnss import dops
el = np.array([0.2, 0.5, 0.9, 1.2, 0.2])
az = np.array([-2.0, 0.5, 2.0, 3.0, 1.0])
a = dops(az, el, 0.2)
b = dops(az+2*np.pi*(az < 0), el, 0.2)
assert np.allclose(a, b), (a, b)
''', 'a satellite exactly at the mask whose azimuth is given as a negative angle', 'the same direction counts or not depending on how its azimuth is written')
plant('l02-third-bound', 'L02',
      [('mlambda.py', "                    imax = np.argmax(sqnorm)\n                    Chi2 = sqnorm[imax]\n\n                zcond[0] += step[0]", "                    imax = np.argmax(sqnorm)\n                    Chi2 = newdist\n\n                zcond[0] += step[0]")],
      '''
import numpy as np, itertools
from cssrlib.mlambda import msearch, ldldecom
rng = np.random.default_rng(1)
G = np.array(list(itertools.product(range(-4, 5), repeat=3)))
for _ in range(400):
    A = rng.normal(size=(3, 3)); Q = A@A.T+0.05*np.eye(3)
    L, d = ldldecom(Q.copy())
    a = rng.uniform(-0.5, 0.5, 3)
    z, s = msearch(L, d, a, 2)
    D = np.sort(np.einsum('ni,ij,nj->n', a-G, np.linalg.inv(Q), a-G))[:2]
    assert np.all(np.asarray(s) <= D*(1+1e-9)+1e-9), (s, D)
''', 'a search in which a nearer vector is found after a farther one', 'a vector nearer than the second one returned is missed')
plant('r01-length-bits', 'R01',
      [('rtcm.py', "        len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff\n        if len_ < 6:\n            return False\n        if k+len_+6 > (maxlen", "        len_ = st.unpack_from('>H', msg, k+1)[0] & 0x3ff\n        if len_ < 6:\n            return False\n        if k+len_+3 > (maxlen")],
      '''
from cssrlib.rtcm import rtcm
import struct
from crccheck.crc import Crc24LteA
d = rtcm(); d.monlevel = 0
m = bytes([0xd3, 0, 8])+bytes(range(1, 9))
f = m+Crc24LteA.calc(m).to_bytes(3, 'big')
assert d.checksum(f, 0) and d.checksum(b'ab'+f, 2)
for n in range(8, len(f)):
    assert not d.checksum(f[:n]+f[n:], 0, n), n
    for pos in (3, 11, 12, 13):
        g = bytearray(f); g[pos] ^= 1
        assert not d.checksum(bytes(g), 0)
''', 'a buffer which ends inside the checksum of a frame', 'a frame of which only a part has been received is taken as complete')
