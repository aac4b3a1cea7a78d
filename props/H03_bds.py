"""H03 BeiDou PPP-B2b messages."""
import math
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, en, same_time
from .f_common import cases

M = 'cssr_bds:cssr_bds.'
F = [M+k for k in ('decode_cssr', 'decode_head', 'decode_cssr_mask', 'add_gnss', 'decode_cssr_orb', 'decode_cssr_orb_sat', 'decode_cssr_clk', 'decode_cssr_clk_sat',
                   'decode_cssr_cbias', 'decode_cssr_ura', 'decode_cssr_comb1', 'decode_cssr_comb2', 'slot2prn', 'sval', 'ssig2rsig')]
BASE = {'BDS': (85, 0), 'GPS': (0, 63), 'GAL': (32, 100), 'GLO': (148, 137)}   # satellite number, slot of PRN 0


def sn(c, p):
    return BASE[c][0]+p


def slot(c, p):
    return BASE[c][1]+p


LISTS = [[('BDS', 7), ('BDS', 30)], [('BDS', 63), ('GPS', 1), ('GAL', 36)], [('GPS', 32), ('GLO', 24)], [('BDS', 19)]]


def value(g, got, raw, w, s):
    bad = Or(raw == -(1 << (w-1)), raw == -((1 << (w-1))-1))
    return And(Implies(bad, isnan(got)), Implies(Not(bad), And(Not(isnan(got)), close(got, raw*s, 1e-9))))


def cvalue(g, got, raw):
    """12-bit code bias: only the most negative pattern is certainly invalid"""
    bad = Or(raw == -2048, raw == -2047)
    return And(Implies(raw == -2048, isnan(got)), Implies(Not(bad), And(Not(isnan(got)), close(got, raw*0.017, 1e-9))))


def bds(g, lst, mt):
    d = resolve('cssr_bds:cssr_bds')()
    d.monlevel = 0
    d.week, d.tow0 = 900, 86400*3
    d.sat_n = [sn(*q) for q in lst]
    d.sys_n = [U(c) for c, _ in lst]
    d.gnss_n = list(d.sys_n)
    d.nsat_n = len(lst)
    d.iodssr = g.int('iodssr', 0, 3)
    d.iodp = d.iodp_p = g.int('iodp', 0, 15)
    L = d.lc[0]
    L.dclk, L.dorb, L.iode, L.iodc, L.iodc_c, L.cbias, L.dclk_p, L.iodc_c_p = {}, {}, {}, {}, {}, {}, {}, {}
    d.ura = {}
    g.lift(d, 3)
    msg = g.buf('msg', 520)
    g.setfield(msg, 0, 6, mt)
    return d, msg


def header(g, msg, i):
    return g.field(msg, i, 17), g.field(msg, i+21, 2), i+23


def epoch(g, d, tod):
    t = g.call('gnss:bdt2gpst', g.call('gnss:bdt2time', 900, 86400*3+tod))
    return t


def orbit_sat(g, d, msg, i, lst, c, p, t):
    """one 69-bit orbit block addressed to satellite c, p"""
    g.setfield(msg, i, 9, slot(c, p) if c else p)
    L = d.lc[0]

    def check():
        if (c, p) not in lst:
            if c:
                g.ensure('no correction for a satellite outside the mask', And(sn(c, p) not in L.dorb, sn(c, p) not in L.iode))
            return
        s = sn(c, p)
        iodn = g.field(msg, i+9, 10)
        g.ensure('issue of the ephemeris', L.iode[s] == (iodn % 256 if c in ('GPS', 'BDS') else iodn))
        g.ensure('issue of the correction', L.iodc[s] == g.field(msg, i+19, 3))
        j = i+22
        for k, (w, q) in enumerate(((15, 0.0016), (13, 0.0064), (13, 0.0064))):
            g.ensure('radial, along, cross', value(g, L.dorb[s][k], g.field(msg, j, w, True), w, q))
            j += w
        g.ensure('accuracy', quality(g, d.ura[s], g.field(msg, i+63, 3), g.field(msg, i+66, 3)))
        g.ensure('orbit epoch', same_time(L.t0[s][CT('ORBIT')], t))
    return check


def quality(g, q, c, v):
    ok = []
    for k in range(8):
        for m in range(8):
            w = None if (k, m) == (0, 0) else 5.4665 if (k, m) == (7, 7) else (3**k*(1+m*0.25)-1)*1e-3
            ok.append(Implies(And(c == k, v == m), isnan(q) if w is None else And(Not(isnan(q)), close(q, w, 1e-9))))
    return And(ok)


def clock_sat(g, d, msg, i, s, old, t, time=True):
    L = d.lc[0]
    iodc, raw = g.field(msg, i, 3), g.field(msg, i+3, 15, True)
    g.ensure('clock issue', L.iodc_c[s] == iodc)
    g.ensure('clock correction, sign reversed', value(g, L.dclk[s], raw, 15, -0.0016))
    if time:
        g.ensure('clock epoch', same_time(L.t0[s][CT('CLOCK')], t))
    if s in old:
        # the superseded clock stays available for orbits of its issue
        if bool(old[s][0] != iodc):
            g.ensure('superseded clock kept', And(L.iodc_c_p[s] == old[s][0], L.dclk_p[s] == old[s][1]))
        else:
            g.ensure('same issue supersedes nothing', s not in L.iodc_c_p)


def mask_list(masks):
    return [(c, p) for c in ('BDS', 'GPS', 'GAL', 'GLO') for p in sorted(masks.get(c, []))]


@contract('H03', fns=F, n=300, tmo=40)
def mask_message(g):
    d, msg = bds(g, LISTS[1], 1)
    masks = g.choice('mask', [{}, {'BDS': [1, 63], 'GPS': [32]}, {'GPS': [1, 2], 'GAL': [36], 'GLO': [1, 24]}, {'GLO': [37], 'BDS': [30]}])
    tod, iod, i = header(g, msg, 6)
    g.assume(tod < 86400)
    iodp = g.field(msg, i, 4)
    i += 4
    for c, w in (('BDS', 63), ('GPS', 37), ('GAL', 37), ('GLO', 37)):
        g.setfield(msg, i, w, sum(1 << (w-p) for p in masks.get(c, []) if p <= (24 if c == 'GLO' else 99)))
        i += w
    masks = {c: [p for p in v if p <= (24 if c == 'GLO' else 99)] for c, v in masks.items()}
    old, oldp = list(d.sat_n), d.iodp
    L = d.lc[0]
    L.dclk[7] = 1.0
    g.call(M+'decode_cssr', d, msg)
    g.ensure('issues', And(d.iodssr == iod, d.iodp == iodp, d.iodp_p == iodp))
    g.ensure('epoch of the message', same_time(d.time, epoch(g, d, tod)))
    g.ensure('mask received', L.cstat & (1 << CT('MASK')) != 0)
    if bool(iodp == oldp):
        g.ensure('same issue: list and corrections kept', And(d.sat_n == old, len(L.dclk) == 1, L.dclk.get(7) == 1.0))
        return
    want = mask_list(masks)
    g.ensure('satellites in slot order', And(d.nsat_n == len(want), d.sat_n == [sn(*q) for q in want], list(d.sys_n) == [U(c) for c, _ in want]))
    g.ensure('superseded list kept', d.sat_n_p == old)
    g.ensure('corrections of another mask dropped', And(*[len(x) == 0 for x in (L.dclk, L.dorb, L.iode, L.iodc, L.iodc_c, L.cbias, L.dclk_p, L.iodc_c_p, d.ura)]))


CROWD = [('BDS', p) for p in range(5, 38)]+[('GPS', p) for p in range(1, 20)]+[('GAL', p) for p in range(3, 21)]

SAT6 = [[('BDS', 7), ('GPS', 1), ('GAL', 36), (None, 0), ('GLO', 24), ('BDS', 30)], [('BDS', 63), ('GPS', 32), ('BDS', 19), ('GAL', 1), (None, 200), (None, 511)]]


@contract('H03', fns=F, n=400, tmo=60)
def orbit_message(g):
    lst = g.choice('lst', LISTS)
    d, msg = bds(g, lst, 2)
    six = g.choice('six', SAT6)
    tod, iod, i = header(g, msg, 6)
    g.assume(tod < 86400)
    L = d.lc[0]
    t = epoch(g, d, tod)
    todo = []
    for c, p in six:
        todo.append(orbit_sat(g, d, msg, i, lst, c, p, t))
        i += 69
    g.call(M+'decode_cssr', d, msg)
    if bool(iod == d.iodssr):
        for f in todo:
            f()
        g.ensure('only satellites of the mask', And(len(L.dorb) == len([q for q in six if q in lst]), d.iodssr_c[CT('ORBIT')] == iod, L.cstat & (1 << CT('ORBIT')) != 0))
    else:
        g.ensure('message of another issue refused', And(len(L.dorb) == 0, len(L.iode) == 0, len(L.iodc) == 0))


SIG = {'BDS': {0: 'L2I', 1: 'L1D', 2: 'L1P', 4: 'L5D', 5: 'L5P', 7: 'L7D', 8: 'L7P', 12: 'L6I'}, 'GPS': {0: 'L1C', 1: 'L1P', 4: 'L1L', 5: 'L1X', 7: 'L2L', 8: 'L2X', 11: 'L5I', 12: 'L5Q', 13: 'L5X'},
       'GAL': {1: 'L1B', 2: 'L1C', 4: 'L5Q', 5: 'L5I', 7: 'L7I', 8: 'L7Q', 11: 'L6C'}, 'GLO': {0: 'L1C', 1: 'L1P', 2: 'L2C'}}


@contract('H03', fns=F, n=500, tmo=60)
def bias_message(g):
    lst, sats, ns = cases(g, 20, lst=LISTS, sats=[[], [('BDS', 7)], [('GPS', 5), ('BDS', 7), ('BDS', 30)], [('GAL', 36), ('GPS', 9), ('GPS', 1)], [('GLO', 24), ('GPS', 32)], [(None, 0), ('BDS', 19)]],
                          ns=[(1, 1, 1), (2, 0, 3), (3, 2, 2)])
    d, msg = bds(g, lst, 3)
    tod, iod, i = header(g, msg, 6)
    g.assume(tod < 86400)
    g.setfield(msg, i, 5, len(sats))
    i += 5
    want = {}
    for k, (c, p) in enumerate(sats):
        g.setfield(msg, i, 9, slot(c, p) if c else p)
        g.setfield(msg, i+9, 4, ns[k])
        i += 13
        tab = SIG[c or 'BDS']
        e = want[(c, p)] = []
        ks = sorted(tab)
        for j in range(ns[k]):
            code = ks[(2*j+k) % len(ks)]
            g.setfield(msg, i, 4, code)
            e.append((tab[code], g.field(msg, i+4, 12, True)))
            i += 16
    g.call(M+'decode_cssr', d, msg)
    L = d.lc[0]
    t = epoch(g, d, tod)
    if bool(iod == d.iodssr):
        inn = [q for q in sats if q in lst]
        g.ensure('exactly the satellites of the mask', And(len(L.cbias) == len(inn), d.iodssr_c[CT('CBIAS')] == iod, L.cstat & (1 << CT('CBIAS')) != 0))
        for q in inn:
            tab = L.cbias[sn(*q)]
            g.ensure('biases of the announced signals', len(tab) == len(want[q]))
            for nm, raw in want[q]:
                r = resolve('gnss:rSigRnx')(U(q[0]), resolve('gnss:uTYP').C, getattr(resolve('gnss:uSIG'), nm))
                g.ensure('bias of the signal', cvalue(g, tab[r], raw))
            g.ensure('bias epoch', same_time(L.t0[sn(*q)][CT('CBIAS')], t))
    else:
        g.ensure('message of another issue refused', len(L.cbias) == 0)


@contract('H03', fns=F, n=500, tmo=60)
def clock_message(g):
    lst, blk, had, match = cases(g, 12, lst=LISTS, blk=[0, 0, 1, 31, 2], had=[0, 1], match=[1, 1, 0])
    big = None
    if blk in (1, 2):
        blk = 2-blk
        # more satellites than one message holds
        lst = [('BDS', p) for p in range(1, 23)]+[('GPS', 1), ('GPS', 2), ('GAL', 3)]
    d, msg = bds(g, lst, 4)
    L = d.lc[0]
    old = {}
    if had:
        s = sn(*lst[-1])
        old[s] = (g.int('oiod', 0, 7), g.real('oclk', -9, 9))
        L.iodc_c[s], L.dclk[s] = old[s]
    tod, iod, i = header(g, msg, 6)
    g.assume(tod < 86400)
    iodp = g.field(msg, i, 4)
    g.assume((iodp == d.iodp) if match else (iodp != d.iodp))
    g.setfield(msg, i+4, 5, blk)
    i += 9
    g.call(M+'decode_cssr', d, msg)
    t = epoch(g, d, tod)
    mine = lst[23*blk:23*blk+23]
    if match and bool(iod == d.iodssr):
        for k, q in enumerate(mine):
            clock_sat(g, d, msg, i+18*k, sn(*q), old, t)
        g.ensure('exactly the satellites of the block', And(len(L.dclk) == len(set(mine) | ({lst[-1]} if had else set())), d.iodssr_c[CT('CLOCK')] == iod, L.cstat & (1 << CT('CLOCK')) != 0))
    else:
        g.ensure('message of another mask or issue refused', And(len(L.dclk) == len(old), *[And(L.dclk[s] == old[s][1], L.iodc_c[s] == old[s][0]) for s in old]))


@contract('H03', fns=F, n=300, tmo=40)
def accuracy_message(g):
    lst = g.choice('lst', LISTS+[CROWD])
    d, msg = bds(g, lst, 5)
    tod, iod, i = header(g, msg, 6)
    g.assume(tod < 86400)
    iodp = g.field(msg, i, 4)
    blk = g.choice('blk', [0, 1])
    g.setfield(msg, i+4, 3, blk)
    i += 7
    g.call(M+'decode_cssr', d, msg)
    if blk == 0 and bool(And(iod == d.iodssr, iodp == d.iodp)):
        g.ensure('satellites of the mask', len(d.ura) == len(lst))
        for k, q in enumerate(lst):
            g.ensure('accuracy', quality(g, d.ura[sn(*q)], g.field(msg, i+6*k, 3), g.field(msg, i+6*k+3, 3)))
    else:
        g.ensure('no accuracy from another mask, issue or block', len(d.ura) == 0)


@contract('H03', fns=F, n=400, tmo=60)
def combined_message(g):
    """clock and orbit blocks in one message (satellites named by their slots)"""
    lst, nc, no, okc, oko = cases(g, 14, lst=LISTS[:3], nc=[0, 1, 2], no=[0, 1, 2], okc=[1, 0], oko=[1, 0])
    if g.choice('full', [0]*9+[1] if not g.symbolic else [0, 1]):
        # as many clocks as one message holds
        lst, nc, no, okc, oko = CROWD, 16, 0, 1, 0
    d, msg = bds(g, lst, 7)
    L = d.lc[0]
    i = 6
    g.setfield(msg, i, 5, nc)
    g.setfield(msg, i+5, 3, no)
    i += 8
    clk, orb = [], []
    if nc:
        tod, iod, i = header(g, msg, i)
        g.assume(And(tod < 86400, (iod == d.iodssr) if okc else (iod != d.iodssr)))
        tc = epoch(g, d, tod)
        for k in range(nc):
            g.setfield(msg, i, 9, slot(*lst[k]))
            clk.append((i+9, sn(*lst[k])))
            i += 27
    if no:
        tod, iod, i = header(g, msg, i)
        g.assume(And(tod < 86400, (iod == d.iodssr) if oko else (iod != d.iodssr)))
        to = epoch(g, d, tod)
        for k in range(no):
            orb.append(orbit_sat(g, d, msg, i, lst, *lst[-1-k], to))
            i += 69
    g.call(M+'decode_cssr', d, msg)
    if okc:
        for p, s in clk:
            clock_sat(g, d, msg, p, s, {}, tc)
    g.ensure('clocks of the named satellites', len(L.dclk) == (nc if okc else 0))
    if oko:
        for f in orb:
            f()
    g.ensure('orbits of the named satellites', len(L.dorb) == (no if oko else 0))


@contract('H03', fns=F, n=400, tmo=60)
def combined_mask_message(g):
    """clocks of consecutive satellites of the mask and orbit blocks in one message"""
    lst, nc, no, okc, oko, first = cases(g, 20, lst=LISTS[:3], nc=[0, 1, 2, 3], no=[0, 1, 2], okc=['ok', 'ok', 'iod', 'iodp'], oko=[1, 0], first=[0, 1, -1, 300])
    if g.choice('full', [0]*9+[1] if not g.symbolic else [0, 1]):
        lst, nc, no, okc, oko, first = CROWD, 24, 0, 'ok', 0, 17
    d, msg = bds(g, lst, 6)
    L = d.lc[0]
    i = 6
    g.setfield(msg, i, 5, nc)
    g.setfield(msg, i+5, 3, no)
    i += 8
    clk, orb = [], []
    if nc:
        tod, iod, i = header(g, msg, i)
        iodp = g.field(msg, i, 4)
        g.assume(And(tod < 86400, (iod != d.iodssr) if okc == 'iod' else (iod == d.iodssr), (iodp != d.iodp) if okc == 'iodp' else (iodp == d.iodp)))
        k0 = len(lst)-1 if first < 0 else first
        g.setfield(msg, i+4, 9, k0)
        i += 13
        tc = epoch(g, d, tod)
        for k in range(nc):
            if k0+k < len(lst):
                clk.append((i, sn(*lst[k0+k])))
            i += 18
    if no:
        tod, iod, i = header(g, msg, i)
        g.assume(And(tod < 86400, (iod == d.iodssr) if oko else (iod != d.iodssr)))
        to = epoch(g, d, tod)
        for k in range(no):
            orb.append(orbit_sat(g, d, msg, i, lst, *lst[(-1-k) % len(lst)], to))
            i += 69
    g.call(M+'decode_cssr', d, msg)
    if okc == 'ok':
        for p, s in clk:
            clock_sat(g, d, msg, p, s, {}, tc)
    g.ensure('clocks of the satellites of the mask', len(L.dclk) == (len(clk) if okc == 'ok' else 0))
    if oko:
        for f in orb[:1] if len(lst) == 1 else orb:
            if len(lst) > 1:
                f()
    g.ensure('orbits of the named satellites', len(L.dorb) == (min(no, len(lst)) if oko else 0))


@contract('H03', fns=F[12:13], n=200)
def slots(g):
    d = resolve('cssr_bds:cssr_bds')()
    s = g.int('slot', 1, 255)
    sys, prn = g.call(M+'slot2prn', d, s)
    for c, lo, hi in (('BDS', 1, 63), ('GPS', 64, 100), ('GAL', 101, 137), ('GLO', 138, 174)):
        g.ensure('slot of each constellation', Implies(And(s >= lo, s <= hi), And(sys == U(c), prn == s-lo+1)))
    g.ensure('unused slots', Implies(s > 174, sys == U('NONE')))
