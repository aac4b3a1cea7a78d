"""R01 RTCM framing and dispatch: intact frames are accepted and every message number reaches its decoder."""
import struct
from vc.api import contract, And, Or, Not, Implies, Iff, resolve
from .f_common import cases

M = 'rtcm:rtcm.'


def crc24q(b):
    r = 0
    for x in b:
        r ^= x << 16
        for _ in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= 0x1864CFB
    return r & 0xffffff


def frame(body):
    f = bytes([0xd3])+struct.pack('>H', len(body))+bytes(body)
    return bytearray(f+crc24q(f).to_bytes(3, 'big'))


def body(n, seed):
    return [(7*j*j+31*j+seed) & 0xff for j in range(n)]


def dec():
    d = resolve('rtcm:rtcm')()
    d.monlevel = 0
    return d


@contract('R01', fns=[M+'sync', M+'checksum'], n=200, merging=False)
def check(g):
    """which octets are checked, and what is made of the remainder"""
    n, ex, pre, cut = cases(g, 40, n_=[6, 7, 100, 255, 256, 1023], ex=[0, 1, 40], pre=[0, 5], cut=[0, 1, 3, 6])
    d = dec()
    fr = frame(body(n, 3))
    buf = bytearray([0x11]*pre)+fr+bytearray([0x22]*ex)
    rem = g.int('rem', 0, 0xffffff)
    seen = []

    def calc(*a, **k):
        seen.append(bytes(a[-1]))
        return rem
    g.ensure('preamble', And(g.call(M+'sync', d, buf, pre), Not(g.call(M+'sync', d, buf, pre+1)), Not(g.call(M+'sync', d, buf, pre+3))))
    end = len(buf)-ex-cut       # number of octets received so far
    with g.stub('rtcm:Crc24LteA.calc', calc):
        r = g.call(M+'checksum', d, buf, pre, end)
    if cut:
        g.ensure('an incomplete frame is not accepted', Not(r))
        return
    g.ensure('accepted if the remainder over the frame vanishes', Iff(r, rem == 0))
    g.ensure('the whole frame is checked', seen == [bytes(fr)])
    g.ensure('length of body and frame', And(d.len == n, d.dlen == n+6))


@contract('R01', fns=[M+'checksum'], n=60, merging=False)
def short(g):
    d = dec()
    n = g.choice('n', [0, 1, 2, 5])
    g.ensure('a frame without message is not accepted', Not(g.call(M+'checksum', d, frame(body(n, 1))+bytearray(20), 0, 20+n)))


@contract('R01', fns=['rtcm:rtcme.set_sync', 'rtcm:rtcme.set_len', 'rtcm:rtcme.set_checksum'], n=200, merging=False)
def write(g):
    n, pre, mx = cases(g, 20, n_=[6, 7, 200, 255, 256, 1023], pre=[0, 5], mx=[0, 1])
    e = resolve('rtcm:rtcme')()
    b = body(n, 9)
    buf = bytearray([0x11]*pre)+bytearray(3)+bytearray(b)+bytearray(3)+bytearray([0x22]*4)
    rem = [g.int('r%d' % k, 0, 255) for k in range(3)]
    seen = []

    def calc(*a, **k):
        seen.append(bytes(a[-1]))
        return rem[0]*65536+rem[1]*256+rem[2]
    g.call('rtcm:rtcme.set_sync', e, buf, pre)
    g.call('rtcm:rtcme.set_len', e, buf, pre, n)
    fr = frame(b)
    g.ensure('preamble and length', bytes(buf[pre:pre+3]) == bytes(fr[:3]))
    g.call('rtcm:rtcme.set_checksum', e, buf, pre, len(buf) if mx else 0)
    g.ensure('checked by the receiver', bytes(buf[pre:pre+n+6]) == bytes(fr))
    g.ensure('nothing else is written', And(bytes(buf[:pre]) == b'\x11'*pre, bytes(buf[pre+n+6:]) == b'\x22'*4))


@contract('R01', fns=[M+'checksum', 'rtcm:rtcme.set_checksum'], n=300, prove=False, why='the CRC is computed by an external library: executed on listed frames and error patterns')
def errors(g):
    """every error burst of up to 24 bits is found"""
    n, at, ln, pat = cases(g, 216, n_=[6, 20, 300], at=[0, 11, 23, 24, 40, 71], ln=[1, 2, 13, 24], pat=[0, 1, 2])
    d = dec()
    fr = frame(body(n, 5))
    g.ensure('an intact frame is accepted', g.call(M+'checksum', d, fr, 0, len(fr)))
    bad = bytearray(fr)
    p = {0: (1 << ln)-1, 1: (1 << (ln-1)) | 1, 2: int('1011001110001111000011111'[:ln], 2) | 1}[pat]
    tot = len(bad)*8
    pos = min(tot-ln, at if at != 71 else tot-ln)
    v = int.from_bytes(bad, 'big') ^ (p << (tot-pos-ln))
    bad = bytearray(v.to_bytes(len(bad), 'big'))
    g.ensure('a disturbed frame is not accepted', Not(g.call(M+'checksum', d, bad+bytearray(40), 0, len(bad)+40) and bytes(bad) != bytes(fr)))


DEC = {'decode_cssr_orb': [1057, 1063, 1240, 1246, 1252, 1258, 41, 62, 64], 'decode_cssr_clk': [1058, 1064, 1241, 1247, 1253, 1259, 42, 65, 66, 67],
       'decode_cssr_cbias': [1059, 1065, 1242, 1248, 1254, 1260, 43, 68, 69, 70], 'decode_cssr_comb': [1060, 1066, 1243, 1249, 1255, 1261, 44, 71, 72, 73],
       'decode_cssr_ura': [1061, 1067, 1244, 1250, 1256, 1262, 45, 74, 75, 76], 'decode_cssr_hclk': [1062, 1068, 1245, 1251, 1257, 1263, 46, 77, 78, 79],
       'decode_cssr_pbias': [1265, 1266, 1267, 1268, 1269, 1270, 85, 86, 87, 88, 89], 'decode_igsssr': [4076], 'decode_nrtk_residual': [1030, 1031, 1303, 1304, 1305],
       'decode_msm': [b+k for b in (1071, 1081, 1091, 1101, 1111, 1121) for k in range(7)], 'decode_ant_desc': [1007, 1008, 1033],
       'decode_sta_pos': [1005, 1006, 1032], 'decode_glo_bias': [1230], 'decode_gps_eph': [1019], 'decode_glo_eph': [1020], 'decode_irn_eph': [1041],
       'decode_bds_eph': [1042, 63], 'decode_sbs_eph': [1043], 'decode_qzs_eph': [1044], 'decode_gal_eph': [1045, 1046], 'decode_unicode_text': [1029],
       'decode_ssr_metadata': [60], 'decode_ssr_grid': [61], 'decode_ssr_satant': [80, 81, 82, 83, 84], 'decode_ssr_pbias_ex': [90, 91, 92, 93, 94],
       'decode_ssr_trop': [95], 'decode_ssr_iono': [96, 97, 98, 99, 100], 'decode_integrity_min': [3, 2000], 'decode_integrity_ext': [4, 2005],
       'decode_integrity_ext_sis_local': [5, 2006], 'decode_integrity_service_area': [6, 2007, 2008], 'decode_integrity_quality': [7, 2051],
       'decode_integrity_cnr_acg': [8, 2091], 'decode_integrity_vmap': [2071], 'decode_integrity_mmap': [2072], 'decode_integrity_ssr': [11, 2011, 12, 13],
       'decode_sc134_test_header': [54]}
SLOT = {'decode_msm': 1, 'decode_gps_eph': 2, 'decode_irn_eph': 2, 'decode_bds_eph': 2, 'decode_qzs_eph': 2, 'decode_gal_eph': 2, 'decode_glo_eph': 3, 'decode_sbs_eph': 4}
NOI = [k for k in DEC if k.startswith('decode_integrity')]
SCAN = ['decode_ant_desc', 'decode_sta_pos', 'decode_glo_bias']


class stubs:
    """every decoder replaced by a recorder"""

    def __init__(s, g):
        s.g, s.log, s.st = g, [], []

    def __enter__(s):
        for nm in DEC:
            def f(self, msg, i=0, *a, nm=nm, **k):
                s.log.append((nm, i))
                if nm in SLOT:
                    return 777, nm
                return 777
            t = s.g.stub(M+nm, f)
            t.__enter__()
            s.st.append(t)
        return s.log

    def __exit__(s, *a):
        for t in reversed(s.st):
            t.__exit__(*a)


@contract('R01', fns=[M+'decode'], n=400, merging=False)
def dispatch(g):
    alln = sorted(x for v in DEC.values() for x in v)
    mt = g.choice('mt', alln)
    mode = g.choice('mode', ['plain', 'scan', 'skip', 'nopb'])
    want = [k for k in DEC if mt in DEC[k]][0]
    d = dec()
    if mode == 'skip':
        d.mt_skip = [mt]
    d.mask_pbias = mode == 'nopb'
    m = bytearray(40)
    m[3], m[4] = mt >> 4, (mt & 15) << 4
    with stubs(g) as log:
        r = g.call(M+'decode', d, m, None, mode == 'scan')
    if mode == 'skip' or (mode == 'scan' and want not in SCAN) or (mode == 'nopb' and want == 'decode_cssr_pbias'):
        g.ensure('the message is not decoded', And(log == [], list(r[1:]) == [None]*4))
        return
    g.ensure('decoder of the message number', log == [(want, 36)])
    exp = [None]*5
    if want in SLOT:
        exp[SLOT[want]] = want
    g.ensure('kind of the result', And(len(r) == 5, list(r[1:]) == exp[1:]))
    if want not in NOI and want != 'decode_unicode_text':
        g.ensure('end of the message', r[0] == 777)


@contract('R01', fns=[M+'decode'], n=400, merging=False)
def unknown(g):
    """any other message number is left alone"""
    d = dec()
    m = g.zbuf('msg', 320)
    mt = g.int('mt', 0, 4095)
    g.setfield(m, 24, 12, mt)
    for v in DEC.values():
        for x in v:
            g.assume(mt != x)
    with stubs(g) as log:
        r = g.call(M+'decode', d, m)
    g.ensure('the message is not decoded', And(log == [], list(r[1:]) == [None]*4, d.msgtype == mt))
