plant('r02-full-cells', 'R02',
      [('rtcm.py', "        if sz > 64:\n            return i, None\n        ncell = 0\n        self.sig_n = []\n        for k in range(self.nsat):\n            cellmask = bs.unpack_from(", "        if sz >= 64:\n            return i, None\n        ncell = 0\n        self.sig_n = []\n        for k in range(self.nsat):\n            cellmask = bs.unpack_from(")],
      '''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.rtcm import rtcm
d = rtcm(); d.week = 2200; d.msgtype = 1074; d.monlevel = 0
def msg(nsat, sigs):
    b = bytearray(600); i = 0
    bs.pack_into('u12u30u1u3', b, i, 7, 3600000, 0, 0); i += 53
    i += 8
    bs.pack_into('u64', b, i, ((1 << nsat)-1) << (64-nsat)); i += 64
    bs.pack_into('u32', b, i, sum(1 << (32-s) for s in sigs)); i += 32
    for k in range(nsat):
        bs.pack_into('u%d' % len(sigs), b, i, (1 << len(sigs))-1); i += len(sigs)
    for k in range(nsat):
        bs.pack_into('u8', b, i, 70); i += 8
    return bytes(b)
sg = [2, 3, 4, 8, 9, 10, 15, 16]
i, obs = d.decode_msm(msg(7, sg), 0)
assert obs is not None and len(obs.sat) == 7
i, obs = d.decode_msm(msg(8, sg), 0)
assert obs is not None and len(obs.sat) == 8 and obs.P.shape == (8, 8)
''', 'a message with exactly 64 cells', 'the fullest message the format allows gives no observation')
plant('r03-igs-glonass', 'R03',
      [('rtcm.py', "        if sys==uGNSS.GLO and self.msgtype != 4076:", "        if sys==uGNSS.GLO:")],
      '''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.cssrlib import sCSSR
from cssrlib.rtcm import rtcm
d = rtcm(); d.week = 2200; d.time = gpst2time(2200, 1000.0); d.msgtype = 4076; d.subtype = sCSSR.CLOCK; d.monlevel = 0
b = bytearray(40)
bs.pack_into('u20u4u1u4u16u4u6', b, 0, 345600, 2, 0, 9, 77, 3, 11)
for sys in (uGNSS.GPS, uGNSS.GLO):
    i, v = d.decode_head(bytes(b), 0, sys)
    assert i == 55 and v['nsat'] == 11 and v['iodssr'] == 9, (sys, i, v)
    assert timediff(d.time, gpst2time(2200, 345600)) == 0.0
''', 'an IGS SSR message for GLONASS', 'the header is read with the RTCM GLONASS epoch field, shifting everything behind it')
plant('a03-lnav-mask', 'A03',
      [('qznma.py', "0xffffff, 0xffff80],\n", "0xffffff, 0xfffffc],\n")],
      '''
from cssrlib.gnss import *
from cssrlib.qznma import *
import cssrlib.qznma as q
c = [getattr(q, n) for n in dir(q) if hasattr(getattr(q, n), 'lnav_to_mnav')][0]
o = c.__new__(c)
m = o.lnav_to_mnav(bytes([0xff])*120, sys=uGNSS.GPS)
bits = ''.join('{:08b}'.format(x) for x in m)
w = lambda sf, k: bits[300*sf+30*k:300*sf+30*k+24]
assert w(0, 9) == '1'*22+'00' and w(2, 9) == '1'*22+'00'
assert w(1, 9) == '1'*17+'0'*7, w(1, 9)
''', 'a GPS LNAV message whose age of data offset differs from zero', 'the signature is checked over bits it does not cover, so genuine messages are refused')
plant('v03-triangle', 'V03',
      [('sbas.py', "        v = [[y, x], [x1, y], [y1, x], [x1, y1]]", "        v = [[y, x], [x1, y], [x1, y], [x1, y1]]")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib import sbas
from cssrlib.cssrlib import sCType
class L: pass
cs = L(); cs.lc = [L()]; cs.lc[0].t0 = {0: {sCType.VTEC: gpst2time(2200, 0)}}; cs.inet = 0
pos = np.deg2rad([35.0, 139.0, 0]); pos[2] = 0
plane = lambda dx, dy: 3.0+2.0*dx+5.0*dy
cor = {0: (0, 0), 1: (0, 1), 2: (1, 0), 3: (1, 1)}
t = gpst2time(2200, 60)
for miss in range(4):
    for x, y in ((0.6, 0.7), (0.3, 0.2), (0.2, 0.75), (0.8, 0.3), (0.7, 0.45), (0.4, 0.55)):
        igp = {i: [plane(*cor[i]), 3] for i in range(4) if i != miss}
        inside = {0: x+y >= 1, 1: x-y >= 0, 2: y-x >= 0, 3: x+y <= 1}[miss]
        if not inside:
            continue
        sbas.searchIGP = lambda *a: (igp, x, y)
        sbas.ionppp = lambda *a: (1.0, np.zeros(3))
        d, v = sbas.ionoSBAS(t, pos, 0.0, 1.0, cs)
        assert abs(d-plane(x, y)) < 1e-9, (miss, x, y, d)
''', 'a cell with only three monitored corners, the one at the lower right (index 1 or 2) missing', 'wrong weights in one of the four triangle cases')
plant('v02-sbs-prn', 'V02',
      [('sbas.py', "        prn_sbs, nsat_sbs = self.decode_mask(mask_sbs, 39, 120)", "        prn_sbs, nsat_sbs = self.decode_mask(mask_sbs, 39, 119)")],
      '''
import bitstruct as bs
from cssrlib.gnss import *
from cssrlib.sbas import sbasDec
d = sbasDec()
m = bytearray(40)
i = 37+37+37+8
bs.pack_into('u39', m, i, (1 << 38) | 1)
d.decode_dfmc_mask(bytes(m), 0)
assert d.sat_n == [prn2sat(uGNSS.SBS, 120), prn2sat(uGNSS.SBS, 158)], d.sat_n
''', 'a DFMC mask that lists SBAS satellites', 'SBAS satellites of the mask are off by one')
plant('h03-clk-prev', 'H03',
      [('cssr_bds.py', "        if sat in self.lc[inet].iodc_c.keys() and \\\n                iodc != self.lc[inet].iodc_c[sat]:", "        if sat in self.lc[inet].iodc_c.keys() and \\\n                iodc > self.lc[inet].iodc_c[sat]:")],
      '''
import bitstruct as bs
from cssrlib.cssr_bds import cssr_bds
d = cssr_bds()
lc = d.lc[0]
for n in ('iodc_c', 'dclk', 'iodc_c_p', 'dclk_p'):
    setattr(lc, n, {})
def clk(iod, v):
    b = bytearray(8); bs.pack_into('u3s15', b, 0, iod, v)
    d.decode_cssr_clk_sat(bytes(b), 0, 0, 5)
clk(6, 100); clk(7, 200)
assert lc.iodc_c_p[5] == 6 and lc.iodc_c[5] == 7
clk(0, 300)
assert lc.iodc_c_p[5] == 7 and lc.iodc_c[5] == 0, (lc.iodc_c_p, lc.iodc_c)
assert abs(lc.dclk_p[5]+200*d.dclk_scl) < 1e-12
''', 'the clock issue wrapping from 7 to 0', 'the previous clock is not kept when the issue number wraps, so orbits of the previous issue get no or a stale clock')
plant('f05-find-bias-type', 'F05',
      [('pppssr.py', "            elif sig.toAtt('X') in sigc.keys():\n                v[k] = sigc[sig.toAtt('X')]", "            elif sig.toAtt('X') in sigc.keys() and v[k-1] == 0.0:\n                v[k] = sigc[sig.toAtt('X')]")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
class L: pass
o = pppos.__new__(pppos)
cs = L(); cs.cssrmode = 0; cs.lc = [L()]
R = rSigRnx
cs.lc[0].cbias = {7: {R('EC1C'): 0.5, R('EC5X'): 0.25, R('EC7X'): 0.75}}; cs.lc[0].pbias = None
v = o.find_bias(cs, [R('EC1C'), R('EC5Q')], 7)
assert list(v) == [0.5, 0.25], v
v = o.find_bias(cs, [R('EC5Q'), R('EC7Q')], 7)
assert list(v) == [0.25, 0.75], v
''', 'biases of which a later one is given for the combined tracking mode X while the one before is not zero', 'the bias of the second signal is left out')
plant('f01-iono-reset', 'F01',
      [('pppssr.py', "                    j = self.II(sat_, self.nav.na)\n                    if reset and self.nav.x[j] != 0.0:\n                        self.initx(0.0, 0.0, j)", "                    j = self.II(sat_, self.nav.na)\n                    if reset and self.nav.x[j] > 0.0:\n                        self.initx(0.0, 0.0, j)")],
      '''
import numpy as np
from copy import deepcopy
from cssrlib.gnss import *
from cssrlib.pppssr import pppos
def run(ion):
    nav = Nav(2); nav.pmode = 1; nav.monlevel = 0
    c = deepcopy(default_config)
    o = pppos(nav, np.array([-3957e3, 3310e3, 3737e3]), config=c)
    nav.t = gpst2time(2200, 100.0)
    if nav.niono == 0:
        raise SystemExit('no iono states')
    j = o.II(3, nav.na)
    nav.x[j] = ion; nav.P[j, j] = 4.0
    nav.outc[2, :] = nav.maxout+5
    obs = Obs(); obs.t = gpst2time(2200, 101.0); obs.sat = np.array([], dtype=int)
    s = uGNSS.GPS
    obs.sig = {s: {uTYP.C: [rSigRnx('GC1C'), rSigRnx('GC2W')], uTYP.L: [rSigRnx('GL1C'), rSigRnx('GL2W')]}}
    obs.P = obs.L = np.zeros((0, 2))
    o.udstate(obs)
    return nav.x[j]
assert run(2.5) == 0.0
assert run(-2.5) == 0.0
''', 'a negative slant delay state of a satellite after a long outage', 'the stale ionosphere state is kept')
plant('e03-prev-mask', 'E03',
      [('ephemeris.py', "                    elif cs.iodssr_c[sCType.CLOCK] == cs.iodssr_p:\n                        if sat not in cs.sat_n_p:\n                            return rs, vs, dts, svh\n                    else:\n                        return rs, vs, dts, svh\n\n                if sat not in",
        "                    elif cs.iodssr_c[sCType.CLOCK] == cs.iodssr_p:\n                        if sat not in cs.sat_n:\n                            return rs, vs, dts, svh\n                    else:\n                        return rs, vs, dts, svh\n\n                if sat not in")],
      '''
import numpy as np
from cssrlib.gnss import *
from cssrlib.cssrlib import sCType, sCSSRTYPE
from cssrlib.ephemeris import satpos
class L: pass
t = gpst2time(2200, 3600.0)
e = Eph(3); e.toe = e.toc = e.tot = t; e.toes = 3600; e.week = 2200; e.A = 26560e3; e.e = 0.01; e.iode = 5; e.iodc = 5; e.svh = 0; e.mode = 0; e.i0 = 0.9; e.cuc = 0.0
nav = Nav(1); nav.eph = [e]; nav.ephopt = 2
cs = L(); cs.cssrmode = sCSSRTYPE.QZS_CLAS; cs.iodssr = 3; cs.iodssr_p = 2; cs.iodssr_c = {k: 2 for k in range(20)}
cs.sat_n = [9]; cs.sat_n_p = [3]; cs.nav_mode = {uGNSS.GPS: 0}
lc = L(); cs.lc = [lc]; lc.iode = {3: 5}; lc.dorb = {3: np.zeros(3)}; lc.dclk = {3: 0.1}; lc.cstat = 0; lc.hclk = {}; lc.t0 = {3: {sCType.ORBIT: t, sCType.CLOCK: t}}
rs, vs, dts, svh = satpos(3, t, nav, cs)
assert not np.isnan(rs).any(), 'satellite of the superseded mask refused'
''', 'a new mask has arrived while orbit and clock corrections still refer to the previous one', 'membership is tested against the wrong satellite list for the clock')
