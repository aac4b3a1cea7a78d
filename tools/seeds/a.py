PACK = '''
import bitstruct as bs
from cssrlib.cssrlib import cssr, sCType
from cssrlib.gnss import *
import numpy as np
def dec(lst):
    d = cssr(); d.week = 2200; d.tow0 = 7200; d.iodssr = 3
    d.sat_n = [id2sat(s) for s in lst]; d.nsat_n = len(lst)
    d.sys_n = [sat2prn(s)[0] for s in d.sat_n]
    d.sig_n = {s: [rSigRnx(sat2prn(s)[0], uTYP.L, 1) if False else rSigRnx(sys2char(sat2prn(s)[0])+'L1C')] for s in d.sat_n}
    d.nsig_n = [1]*len(lst)
    return d
def pack(fields):
    b = bytearray(400); i = 0
    for w, v in fields:
        bs.pack_into(('s' if v < 0 else 'u')+str(w), b, i, v); i += w
    return b, i
'''
plant('c02-comb-inet', 'C02',
      [('cssrlib.py', "                i = self.decode_clk_sat(msg, i, sat, inet)\n                self.set_t0(inet, sat, sCType.CLOCK, self.time)\n\n        if dfm['clk']:\n            # self.iodssr_c",
        "                i = self.decode_clk_sat(msg, i, sat, inet if dfm['orb'] else 0)\n                self.set_t0(inet, sat, sCType.CLOCK, self.time)\n\n        if dfm['clk']:\n            # self.iodssr_c")],
      PACK+'''
d = dec(['G01', 'G02'])
b, n = pack([(12, 10), (4, 1), (1, 0), (4, 3), (1, 0), (1, 1), (1, 1), (5, 4), (2, 2), (15, 100)])
assert d.decode_cssr_comb(b, 0) == n
assert list(d.lc[4].dclk) == [1] and abs(d.lc[4].dclk[1]-0.16) < 1e-9, d.lc[4].dclk
assert not getattr(d.lc[0], 'dclk', {})
''', 'a combined message that carries a network selection and clocks but no orbits', 'network clocks of a clock-only combined message are stored as global corrections')
plant('c01-same-iod', 'C01',
      [('cssrlib.py', "        if self.iodssr != head['iodssr']:\n            self.sat_n_p", "        if self.iodssr < head['iodssr']:\n            self.sat_n_p")],
      PACK+'''
d = dec(['G01', 'G02']); d.iodssr = 15; d.iodssr_p = -1
sv, sg = 1 << 39, 1 << 15
b, n = pack([(20, 7300), (4, 1), (1, 0), (4, 0), (4, 1), (4, 0), (40, sv), (16, sg), (1, 0)])
d.decode_cssr_mask(b, 0)
assert d.iodssr == 0 and d.sat_n == [1] and d.sat_n_p == [1, 2] and d.iodssr_p == 15
''', 'the issue number of the mask wraps from 15 to 0', 'the superseded satellite list is not kept aside when the issue number wraps')
plant('c08-prev-frame', 'C08',
      [('cssrlib.py', "            self.buff_p = copy.copy(self.buff)\n            self.buff = bytearray(250*10)\n\n        if l6head['vendor'] == 5:",
        "            self.buff_p = self.buff\n            self.buff[:] = bytes(250*10)\n\n        if l6head['vendor'] == 5:")],
      '''
import bitstruct as bs
from cssrlib.cssrlib import cssr
def part(sid, fill):
    m = bytearray([fill])*250
    bs.pack_into('u32u8u3u2u2u1u1', m, 0, 0x1acffc1d, 193, 5, 0, 0, sid, 0)
    return m
import cssrlib.cssrlib as cl
d = cssr()
d.decode_l6msg(part(1, 0xff), 0)
keep = bytes(d.buff)
d.decode_l6msg(part(0, 0xff), 0)
last = bytes(d.buff)
d.decode_l6msg(part(1, 0), 0)
assert bytes(d.buff_p) == last
assert not any(d.buff[220:]), 'previous frame leaks into the new one'
''', 'a new frame that starts while the previous one is incomplete or complete (fcnt>0)', 'the new frame is written over the previous one instead of a fresh buffer, so the kept previous frame changes')
plant('c03-cell-index', 'C03',
      [('cssrlib.py', "            for j in range(self.nsig_n[k]):\n                if dfm['cb']:\n                    rsig = self.sig_n[sat][j].toTyp(uTYP.C)", "            for j in range(self.nsig_n[ki]):\n                if dfm['cb']:\n                    rsig = self.sig_n[sat][j].toTyp(uTYP.C)")],
      PACK+"""
d = dec(['G01', 'G02'])
d.sig_n[2] = [rSigRnx('GL1C'), rSigRnx('GL2W')]; d.nsig_n = [1, 2]
b, n = pack([(12, 10), (4, 1), (1, 0), (4, 3), (1, 1), (1, 0), (1, 1), (5, 4), (2, 1), (11, 5), (11, 7)])
assert d.decode_cssr_bias(b, 0) == n
assert len(d.lc[4].cbias[2]) == 2
""", 'a network selection that skips a satellite, with satellites of different signal counts', 'the number of biases read is that of another satellite, shifting everything that follows')
plant('t02-leap-boundary', 'T02',
      [('gnss.py', "    for i in range(len(leaps_)):\n        if timediff(t, epoch2time(leaps_[i])) >= 0.0:", "    for i in range(len(leaps_)):\n        if timediff(timeadd(t, -leaps_[i][6]), epoch2time(leaps_[i])) >= 0.0:")],
      """
from cssrlib.gnss import *
u = epoch2time([2016, 12, 31, 23, 59, 50])
g = utc2gpst(u)
assert timediff(g, u) == 17.0, timediff(g, u)
""", 'a UTC time within the 18 s before a leap second takes effect', 'the new leap second is applied before it takes effect')
plant('s01-printed-label', 'S01',
      [('gnss.py', "    elif sat > uGNSS.GLOMIN:\n        prn = sat-uGNSS.GLOMIN", "    elif sat >= uGNSS.GLOMIN:\n        prn = sat-uGNSS.GLOMIN")],
      """
from cssrlib.gnss import *
s = prn2sat(uGNSS.BDS, uGNSS.GLOMIN-uGNSS.BDSMIN)
assert sat2prn(s) == (uGNSS.BDS, 63), sat2prn(s)
""", 'the last BeiDou PRN', 'the highest BeiDou satellite is reported as GLONASS 0')
plant('c05-residual-range', 'C05',
      [('cssrlib.py', "        self.lc[inet].flg_trop = dfm['trop']\n        self.lc[inet].flg_stec = dfm['stec']\n        i += 15", "        self.lc[inet].flg_trop = dfm['trop']\n        self.lc[inet].flg_stec = dfm['stec'] or self.lc[inet].flg_stec\n        i += 15")],
      PACK+"""
d = dec(['G01'])
d.lc[4].flg_stec = 3
d.lc[4].flg_trop = 0
d.grid = np.zeros(0, dtype=[('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'), ('alt', 'f8')])
d.grid = np.array([(4, 1, 35.0, 139.0, 0.0)], dtype=d.grid.dtype)
b, n = pack([(12, 10), (4, 1), (1, 0), (4, 3), (2, 0), (2, 0), (5, 4), (6, 1)])
d.decode_cssr_atmos(b, 0)
assert d.lc[4].flg_stec == 0, d.lc[4].flg_stec
""", 'an atmosphere message without slant delays after one with slant delays for the same network', 'the flag of a previous message survives, so the new message is parsed with slant-delay fields it does not contain')
