"""H01 Galileo HAS messages: every block of a message reaches the right satellites, with the right mask."""
import math
import copy
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, selection, decoder, en, same_time, rsig
from .C01_mask import write_mask, OFF, SG
from .f_common import cases

F = ['cssr_has:cssr_has.decode_cssr', 'cssr_has:cssr_has.decode_head', 'cssr_has:cssr_has.sval', 'cssr_has:cssr_has.decode_cssr_clk_sub',
     'cssrlib:cssr.decode_cssr_mask', 'cssrlib:cssr.decode_cssr_orb', 'cssrlib:cssr.decode_cssr_clk', 'cssrlib:cssr.decode_cssr_cbias',
     'cssrlib:cssr.decode_cssr_pbias', 'cssrlib:cssr.decode_orb_sat', 'cssrlib:cssr.decode_clk_sat']
SIGS = {'GPS': ['L1C', 'L2W'], 'GAL': ['L1C', 'L7Q']}
HG = {'GPS': 0, 'GAL': 2}
WHOLE = ['G%02d' % k for k in range(1, 33)]+['E%02d' % k for k in range(1, 37)]
LISTS = [['G05'], ['E11', 'E36'], ['G01', 'G32', 'E36'], ['E02', 'G09']]
CL = 299792458.0
FREQ = {('GPS', 'L1C'): 1575.42e6, ('GPS', 'L2W'): 1227.60e6, ('GAL', 'L1C'): 1575.42e6, ('GAL', 'L7Q'): 1207.14e6}


def sv(g, got, raw, w, scl, dnu):
    """signed field with its not-available (and, for clocks, do-not-use) pattern; the
    largest value of the other fields is left open"""
    top = raw == (1 << (w-1))-1
    bad = raw == -(1 << (w-1))
    val = And(Not(isnan(got)), close(got, raw*scl, 1e-9))
    if dnu:
        return And(Implies(Or(bad, top), isnan(got)), Implies(Not(Or(bad, top)), val))
    return And(Implies(bad, isnan(got)), Implies(And(Not(bad), Not(top)), val), Or(Not(top), isnan(got), val))


def has(g, lst, mt=None):
    d, sl = decoder(g, lst, 'cssr_has:cssr_has', SIGS)
    d.gnss_n = [HG[c] for c, _ in sl]
    order = []
    for c, _ in sl:
        if c not in order:
            order.append(c)
    d.gnss_idx = [U(c) for c in order]
    d.nsat_g, d.dcm = [0]*d.SYSMAX, [1.0]*d.SYSMAX
    for c in order:
        d.nsat_g[HG[c]] = sum(1 for a, _ in sl if a == c)
    d.mask_id = g.int('mask', 0, 31)
    d.mask_id_clk = g.int('maskc', 0, 31)
    d.msgtype = mt or g.choice('mt', [1, 4073])
    return d, sl, order


def head(g, d, msg, toh, flags):
    g.setfield(msg, 12, 6, flags)
    t = g.field(msg, 0, 12)
    g.assume(t < 3600)
    return t, g.field(msg, 22, 5), g.field(msg, 27, 5)


def layout(g, sl, order, msg, i, flags):
    """write a clock subset block; its selected satellites and where their clocks are"""
    if not flags & 4:
        return None
    i += (4+sum(47 if c == 'GAL' else 45 for c, _ in sl) if flags & 16 else 0)+(4+2*len(order)+13*len(sl) if flags & 8 else 0)+4
    ns = 1 if len(order) == 1 else g.choice('nsub', [1, 2])
    g.setfield(msg, i, 4, ns)
    i += 4
    sub = []
    for c in order[::-1][:ns]:
        g.setfield(msg, i, 4, HG[c])
        m = g.field(msg, i+4, 2)+1
        i += 6
        of = [s for a, s in sl if a == c]
        sel = [s for s, b in zip(of, selection(g, msg, i, len(of), c)) if b]
        i += len(of)
        for s in sel:
            sub.append((s, g.field(msg, i, 13, True), m))
            i += 13
    return sub, i


def blocks(g, d, sl, order, msg, i, flags, tm, iod, old, sub):
    """the correction blocks after the mask, in order"""
    L = d.lc[0]
    # of many satellites some are compared
    some = {s for k, (c, s) in enumerate(sl) if len(sl) < 9 or k % 9 == 8 or k == len(sl)-1}
    if flags & 16:
        g.ensure('orbits of the listed satellites', And(len(L.dorb) == len(sl), d.udi[CT('ORBIT')] == g.field(msg, i, 4), d.iodssr_c[CT('ORBIT')] == iod,
                                                        L.cstat & (1 << CT('ORBIT')) != 0))
        i += 4
        for c, s in sl:
            n = 10 if c == 'GAL' else 8
            ok = [L.iode[s] == g.field(msg, i, n)]
            i += n
            for k, (w, q) in enumerate(((13, 0.0025), (12, 0.008), (12, 0.008))):
                if s in some:
                    ok.append(sv(g, L.dorb[s][k], g.field(msg, i, w, True), w, -q, False))
                i += w
            if s not in some:
                continue
            g.ensure('issue of data and orbit correction', ok)
            g.ensure('orbit epoch', same_time(L.t0[s][CT('ORBIT')], tm))
    if flags & 8:
        g.ensure('clocks of the listed satellites', And(len(L.dclk) == len(sl), d.udi[CT('CLOCK')] == g.field(msg, i, 4), d.iodssr_c[CT('CLOCK')] == iod,
                                                        L.cstat & (1 << CT('CLOCK')) != 0, d.sat_n_p == [s for _, s in sl]))
        i += 4
        dcm = {}
        for c in order:
            dcm[c] = g.field(msg, i, 2)+1
            i += 2
        got = {}
        for c, s in sl:
            got[s] = (g.field(msg, i, 13, True), dcm[c])
            i += 13
            g.ensure('clock epoch', same_time(L.t0[s][CT('CLOCK')], tm))
    else:
        got = {}
    if flags & 4:
        for s, r, m in sub[0]:
            got[s] = (r, m)
            g.ensure('clock epoch', same_time(L.t0[s][CT('CLOCK')], tm))
        i = sub[1]
    for c, s in sl:
        if s not in some:
            continue
        if s in got:
            r, m = got[s]
            v = L.dclk[s]
            bad = Or(r == -4096, r == 4095)
            g.ensure('clock correction times the multiplier of its system', And(Implies(bad, isnan(v)), Implies(Not(bad), And(Not(isnan(v)), close(v, r*m*0.0025, 1e-9)))))
        elif old:
            g.ensure('clocks not in the subset are kept', L.dclk[s] == old[s])
    for fl, nm, tab, w, q in ((2, 'CBIAS', L.cbias, 11, 0.02), (1, 'PBIAS', L.pbias, 11, 0.01)):
        if not flags & fl:
            continue
        g.ensure('biases of the listed satellites', And(len(tab) == len(sl), d.udi[CT(nm)] == g.field(msg, i, 4), d.iodssr_c[CT(nm)] == iod,
                                                        L.cstat & (1 << CT(nm)) != 0))
        i += 4
        for c, s in sl:
            g.ensure('biases of each signal', len(tab[s]) == len(SIGS[c]))
            for sg in SIGS[c]:
                r = rsig(c, nm[0] if fl == 2 else 'L', sg)
                k = q if fl == 2 else q*CL/FREQ[c, sg]
                if s in some:
                    g.ensure('code bias in metres' if fl == 2 else 'phase bias: cycles of the signal, in metres', sv(g, tab[s][r], g.field(msg, i, w, True), w, k, False))
                i += w
                if fl == 1 and s in some:
                    g.ensure('discontinuity indicator', L.di[s][r] == g.field(msg, i, 2))
                i += 2 if fl == 1 else 0
            g.ensure('bias epoch', same_time(L.t0[s][CT(nm)], tm))


FL = [0, 16, 8, 24, 4, 20, 2, 1, 3, 31-4, 8+4, 4+2, 31, 7]


@contract('H01', fns=F, n=700, tmo=100)
def correction_blocks(g):
    lst, flags, mt, had = cases(g, 24, lst=LISTS, flags=FL, mt=[1, 4073], had=[1, 0])
    corrections(g, lst, flags, mt, had)


@contract('H01', fns=F, n=60, tmo=100)
def whole_constellations(g):
    corrections(g, WHOLE, g.choice('flags', [24, 23, 31]), 1, 1)


def corrections(g, lst, flags, mt, had):
    d, sl, order = has(g, lst, mt)
    old = {}
    if had:
        d.lc[0].dclk = {}
        for c, s in sl:
            old[s] = d.lc[0].dclk[s] = g.real('old%d' % s, -9, 9)
        # what an earlier message with another mask left
        L = d.lc[0]
        first = sl[0][1]
        L.dorb, L.iode, L.cbias, L.pbias = {}, {}, {}, {}
        for s in (first, resolve('gnss:prn2sat')(U('SBS'), 125)):
            L.dorb[s], L.iode[s] = [1.5, 2.5, 3.5], 9
            L.cbias[s], L.pbias[s] = ({resolve('gnss:rSigRnx')('SC5I'): 4.5} for _ in range(2))
            if s != first and flags & 8:
                L.dclk[s] = 7.5
    msg = g.buf('msg', 900 if len(lst) < 9 else 9600)
    toh, mid, iod = head(g, d, msg, None, flags)
    g.assume(mid == d.mask_id)
    c0, corr = d.mask_id_clk, copy.deepcopy((d.lc[0].dorb, d.lc[0].cbias, d.lc[0].pbias))
    sub = layout(g, sl, order, msg, 32, flags)
    g.call('cssr_has:cssr_has.decode_cssr', d, msg)
    tm = g.call('gnss:gpst2time', 2200, 3600*50+toh)
    g.ensure('issue of the message', And(d.iodssr == iod, d.mask_id == mid, d.mask_id_clk == (mid if flags & 8 else c0)))
    if flags:
        g.ensure('epoch of the message', same_time(d.time, tm))
    for fl, a, b in ((16, d.lc[0].dorb, corr[0]), (2, d.lc[0].cbias, corr[1]), (1, d.lc[0].pbias, corr[2])):
        if not flags & fl:
            g.ensure('parts not announced are kept', a == b)
    blocks(g, d, sl, order, msg, 32, flags, tm, iod, None if flags & 8 else old, sub)


@contract('H01', fns=F, n=300, tmo=60)
def other_mask(g):
    """corrections for a mask that was not received are not assigned to the satellites of another one"""
    d, sl, order = has(g, g.choice('lst', LISTS[1:3]))
    flags = g.choice('flags', [16, 8, 4, 2, 1, 27])
    msg = g.buf('msg', 900)
    toh, mid, iod = head(g, d, msg, None, flags)
    if g.choice('none', [0, 1]):
        d.mask_id = -1
    g.assume(mid != d.mask_id)
    if g.choice('keep', [0, 1]):
        d.lc[0].dorb, d.lc[0].dclk, d.lc[0].cbias, d.lc[0].pbias = {}, {1: 2.0}, {}, {}
    L = d.lc[0]
    was = copy.deepcopy((L.dorb, L.dclk, L.cbias, L.pbias))+(d.mask_id_clk, d.mask_id, list(d.sat_n))
    g.call('cssr_has:cssr_has.decode_cssr', d, msg)
    g.ensure('corrections unchanged', And(L.dorb == was[0], L.dclk == was[1], L.cbias == was[2], L.pbias == was[3]))
    g.ensure('mask unchanged', And(d.mask_id_clk == was[4], d.mask_id == was[5], list(d.sat_n) == was[6]))


MASKS = [[(0, [5, 31], [0, 9], 0)], [(2, [36, 1], [1, 4], 1)], [(0, [3, 30], [0, 9], 1), (2, [2, 11], [1], 0)], [(0, [7], [0], 0), (2, [4], [4, 7], 0)]]


@contract('H01', fns=F, n=400, tmo=100)
def mask_and_orbits(g):
    """a mask block followed by orbits"""
    m = g.choice('mask', MASKS)
    d, sl, order = has(g, ['G05'])
    msg = g.buf('msg', 900)
    toh, mid, iod = head(g, d, msg, None, 48)
    i = 32
    g.setfield(msg, i, 4, len(m))
    i += 4
    new, sg = [], []
    for gid, sv_, ss, cm in m:
        i, rows = write_mask(g, msg, i, gid, sv_, ss, cm)
        i += 3
        new += [(OFF[gid][0], OFF[gid][1]+s) for s in sorted(sv_)]
        sg += rows
    i += 6
    g.call('cssr_has:cssr_has.decode_cssr', d, msg)
    tm = g.call('gnss:gpst2time', 2200, 3600*50+toh)
    g.ensure('mask of the message', And(d.mask_id == mid, d.sat_n == [s for _, s in new]))
    for (c, s), r in zip(new, sg):
        g.ensure('signals of each satellite', And(len(d.sig_n[s]) == len(r), [And(a.sys == U(c), a.sig == getattr(resolve('gnss:uSIG'), SG[c][q]))
                                                                               for a, q in zip(d.sig_n[s], r)]))
    blocks(g, d, new, None, msg, i, 16, tm, iod, None, None)


@contract('H01', fns=F[:1], n=150)
def refused(g):
    d, sl, order = has(g, ['G01', 'G32', 'E36'])
    msg = g.buf('msg', 900)
    why = g.choice('why', ['type', 'toh'])
    if why == 'type':
        d.msgtype = g.int('mtx', 0, 5000)
        g.assume(And(d.msgtype != 1, d.msgtype != 4073))
    else:
        g.assume(g.field(msg, 0, 12) >= 3600)
    L = d.lc[0]
    was = copy.deepcopy((L.dorb, L.dclk, L.cbias, L.pbias))+(d.mask_id, list(d.sat_n))
    g.call('cssr_has:cssr_has.decode_cssr', d, msg)
    g.ensure('nothing decoded', And(L.dorb == was[0], L.dclk == was[1], L.cbias == was[2], L.pbias == was[3], d.mask_id == was[4], list(d.sat_n) == was[5]))
