"""R02 RTCM multiple signal messages: every cell gives its satellite and signal its observation."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U
from .f_common import cases

M = 'rtcm:rtcm.'
CL = 299792458.0
RMS = CL*1e-3
BASE = {'GPS': 1071, 'GLO': 1081, 'GAL': 1091, 'SBS': 1101, 'QZS': 1111, 'BDS': 1121}
L1, L2, L5, L6, L7, L8 = 1575.42e6, 1227.60e6, 1176.45e6, 1278.75e6, 1207.14e6, 1191.795e6
# position in the signal mask -> RINEX band and attribute
SIG = {'GPS': {2: '1C', 3: '1P', 4: '1W', 8: '2C', 9: '2P', 10: '2W', 15: '2S', 16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L', 32: '1X'},
       'GLO': {2: '1C', 3: '1P', 8: '2C', 9: '2P'},
       'GAL': {2: '1C', 3: '1A', 4: '1B', 5: '1X', 6: '1Z', 8: '6C', 9: '6A', 10: '6B', 11: '6X', 12: '6Z', 14: '7I', 15: '7Q', 16: '7X', 18: '8I',
               19: '8Q', 20: '8X', 22: '5I', 23: '5Q', 24: '5X'},
       'SBS': {2: '1C', 22: '5I', 23: '5Q', 24: '5X'},
       'QZS': {2: '1C', 9: '6S', 10: '6L', 11: '6X', 15: '2S', 16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L', 32: '1X'},
       'BDS': {2: '2I', 3: '2Q', 4: '2X', 8: '6I', 9: '6Q', 10: '6X', 14: '7I', 15: '7Q', 16: '7X', 22: '5D', 23: '5P', 24: '5X', 25: '7D', 30: '1D',
               31: '1P', 32: '1X'}}
FRQ = {'GPS': {'1': L1, '2': L2, '5': L5}, 'GAL': {'1': L1, '5': L5, '6': L6, '7': L7, '8': L8}, 'SBS': {'1': L1, '5': L5},
       'QZS': {'1': L1, '2': L2, '5': L5, '6': L6}, 'BDS': {'1': L1, '2': 1561.098e6, '5': L5, '6': 1268.52e6, '7': L7}}
OFS = {'QZS': 192, 'SBS': 119}
SATS = {'GPS': [[7], [1, 32], [2, 3, 17]], 'GLO': [[24], [1, 9], [2, 3, 17]], 'GAL': [[11], [1, 36], [4, 5, 30]], 'SBS': [[18], [1, 39], [2, 10, 18]],
        'QZS': [[2], [1, 10], [3, 4, 7]], 'BDS': [[33], [1, 63], [5, 6, 60]]}
SGS = {'GPS': [[2], [4, 10], [2, 16, 23]], 'GLO': [[8], [2, 8], [2, 3, 9]], 'GAL': [[24], [2, 15], [5, 11, 20]], 'SBS': [[2], [2, 22], [2, 23, 24]],
       'QZS': [[9], [2, 17], [2, 10, 32]], 'BDS': [[2], [2, 8], [4, 16, 25]]}
SYS = list(BASE)


def dec(g):
    d = resolve('rtcm:rtcm')()
    d.monlevel = 0
    g.lift(d, 2)
    d.week = 2300
    return d


def freq(sy, code, ch):
    if sy == 'GLO':
        if ch is None:
            return None
        return 1602e6+ch*562.5e3 if code[0] == '1' else 1246e6+ch*437.5e3
    return FRQ[sy][code[0]]


class Msg:
    """a message with given masks; the cells are those set in the buffer"""

    def __init__(s, g, nm, sy, msm, sats, sgs, cells=None, nb=2600):
        s.g, s.sy, s.msm, s.sats, s.sgs = g, sy, msm, sats, sgs
        s.m = m = g.buf(nm, nb)
        g.setfield(m, 24, 12, BASE[sy]+msm-1)
        g.setfield(m, 97, 64, sum(1 << (64-k) for k in sats))
        g.setfield(m, 161, 32, sum(1 << (32-k) for k in sgs))
        i = 193
        s.cell = []
        for a in sats:
            if cells is not None:
                g.setfield(m, i, len(sgs), sum(1 << (len(sgs)-1-j) for j, b in enumerate(sgs) if (a, b) in cells))
            for j, b in enumerate(sgs):
                if bool(g.bitat(m, i+j)) if cells is None else (a, b) in cells:
                    s.cell.append((a, b))
            i += len(sgs)
        ns, nc = len(sats), len(s.cell)
        s.f = {}

        def blk(nm, w, n):
            nonlocal i
            s.f[nm] = (i, w)
            i += w*n
        if msm < 4:
            blk('r10', 10, ns)
        else:
            blk('r8', 8, ns)
            if msm in (5, 7):
                blk('ex', 4, ns)
            blk('r10', 10, ns)
            if msm in (5, 7):
                blk('rr', 14, ns)
        hi = msm > 5
        if msm != 2:
            blk('p', 20 if hi else 15, nc)
        if msm > 1:
            blk('l', 24 if hi else 22, nc)
            blk('t', 10 if hi else 4, nc)
            blk('h', 1, nc)
        if msm > 3:
            blk('s', 10 if hi else 6, nc)
        if msm in (5, 7):
            blk('d', 15, nc)
        s.end = i

    def at(s, nm, k, signed=False):
        if nm not in s.f:
            return None
        i, w = s.f[nm]
        return s.g.field(s.m, i+w*k, w, signed)

    def rough(s, k):
        """range in milliseconds (2^-10 ms for the modulo part) and whether it is given"""
        n = s.at('r10', k)
        if s.msm < 4:
            return n, True
        v = s.at('r8', k)
        return v*1024+n, v != 255

    def send(s, d):
        return s.g.call(M+'decode', d, s.m)


def number(sy, k):
    return resolve('gnss:prn2sat')(U(sy), k+OFS.get(sy, 0))


@contract('R02', fns=['rtcm:rtcmUtil.msm2rsig'], n=60)
def signals(g):
    R = resolve('gnss:rSigRnx')
    ch = {'GPS': 'G', 'GLO': 'R', 'GAL': 'E', 'SBS': 'S', 'QZS': 'J', 'BDS': 'C'}
    sy = SYS[g.choice('sys', list(range(6)))]
    u = resolve('rtcm:rtcm')()
    for k, c in SIG[sy].items():
        for t in 'CLS':
            T = getattr(resolve('gnss:uTYP'), t)
            g.ensure('signal of the mask position', g.call('rtcm:rtcmUtil.msm2rsig', u, U(sy), T, k) == R(ch[sy]+t+c))


@contract('R02', fns=['rtcm:rtcmUtil.msmtype', 'rtcm:rtcmUtil.is_msmtype'], n=300)
def types(g):
    u = resolve('rtcm:rtcm')()
    mt = g.int('mt', 1000, 1300)
    a = g.call('rtcm:rtcmUtil.is_msmtype', u, mt)
    sy, m = g.call('rtcm:rtcmUtil.msmtype', u, mt)
    g.ensure('multiple signal message numbers', Iff(a, And(mt >= 1071, mt <= 1127, (mt-1071) % 10 < 7)))
    want = U('NONE')
    for k, b in BASE.items():
        g.ensure('constellation and type of '+k, Implies(And(mt >= b, mt < b+7), And(sy == U(k), m == mt-b+1)))
    g.ensure('no constellation', Implies(Not(And(mt >= 1071, mt <= 1127, (mt-1071) % 10 < 7)), And(sy == want, m == 0)))


@contract('R02', fns=[M+'decode_msm', M+'decode', 'cssrlib:cssr.decode_mask', 'cssrlib:cssr.sval'], n=500, tmo=150)
def observe(g):
    sy, msm, ks, kg, kc, kf = cases(g, 44, sy=SYS, msm=[1, 2, 3, 4, 5, 6, 7], ks=[0, 1, 2], kg=[0, 1, 2], kc=[0, 1, 2, 3, 4], kf=[0, 1, 2, 3, 4])
    sats, sgs = SATS[sy][ks], SGS[sy][kg]
    d = dec(g)
    cells = None
    if kc < 4 or len(sats)*len(sgs) > 2:
        allc = [(a, b) for a in sats for b in sgs]
        cells = [allc, allc[::2], allc[1::2], [c for c in allc if c[1] == sgs[-1]]][kc % 4]
    x = Msg(g, 'msg', sy, msm, sats, sgs, cells)
    ch = {}
    if sy == 'GLO':
        for k, a in enumerate(sats):
            if msm in (5, 7):
                v = [0, 7, 13, 14, 15][(kf+k) % 5]
                g.setfield(x.m, x.f['ex'][0]+4*k, 4, v)
                if v <= 13:
                    ch[a] = v-7
            elif (kf+k) % 2:
                d.glo_ch[number(sy, a)] = ch[a] = 5
    g.setfield(x.m, 48, 30, 1000)
    i, obs, eph, geph, seph = x.send(d)
    g.ensure('an observation message', And(eph is None, geph is None, seph is None, obs is not None))
    g.ensure('end of the message', i == x.end)
    g.ensure('station, issue of the station', And(d.refid == g.field(x.m, 36, 12), d.iods == g.field(x.m, 79, 3), d.mi == g.field(x.m, 78, 1)))
    g.ensure('satellites in the order of the mask', [int(a) for a in obs.sat] == [number(sy, a) for a in sats])
    R, T = resolve('gnss:rSigRnx'), resolve('gnss:uTYP')
    c1 = {'GPS': 'G', 'GLO': 'R', 'GAL': 'E', 'SBS': 'S', 'QZS': 'J', 'BDS': 'C'}[sy]
    for t in 'CLS':
        g.ensure('signals in the order of the mask', obs.sig[U(sy)][getattr(T, t)] == [R(c1+t+SIG[sy][b]) for b in sgs])
    fp, fl = (2.0**-29, 2.0**-31) if msm > 5 else (2.0**-24, 2.0**-29)
    for ka, a in enumerate(sats):
        rg, ok = x.rough(ka)
        for kb, b in enumerate(sgs):
            P, L, S, I = (getattr(obs, n)[ka, kb] for n in ('P', 'L', 'S', 'lli'))
            if (a, b) not in x.cell:
                g.ensure('no observation without a cell', And(P == 0, L == 0, S == 0, I == 0))
                continue
            c = x.cell.index((a, b))
            p, l = x.at('p', c, True), x.at('l', c, True)
            if p is None:
                g.ensure('no pseudorange', P == 0)
            else:
                okp = And(ok, p != -(1 << (x.f['p'][1]-1)))
                g.ensure('pseudorange', And(Implies(okp, close(P, (rg*2.0**-10+p*fp)*RMS)), Implies(Not(okp), P == 0)))
            if l is None:
                g.ensure('no carrier phase', L == 0)
            else:
                fr = freq(sy, SIG[sy][b], ch.get(a))
                if fr is None:
                    g.ensure('no carrier phase without the frequency channel', L == 0)
                else:
                    okl = And(ok, l != -(1 << (x.f['l'][1]-1)))
                    g.ensure('carrier phase', And(Implies(okl, close(L*(CL/fr), (rg*2.0**-10+l*fl)*RMS)), Implies(Not(okl), L == 0)))
            s = x.at('s', c)
            g.ensure('carrier to noise ratio', S == 0 if s is None else close(S, s*(0.0625 if msm > 5 else 1.0)))
            if l is None:
                g.ensure('no lock indicator', I == 0)
            else:
                h, t = x.at('h', c), x.at('t', c)
                g.ensure('loss of lock and half-cycle ambiguity', I == Ite(h == 1, 3, Ite(t == 0, 1, 0)))


# signal sets of two consecutive messages and satellites of both
HIST = [([2, 8], [2, 8]), ([2, 8], [8]), ([8], [2, 8]), ([2, 10, 16], [8, 10]), ([2], [8])]


@contract('R02', fns=[M+'decode_msm'], n=400, tmo=150)
def lock(g):
    """loss of lock between two messages, whatever satellites and signals they list"""
    ma, mb, kh, sa, sb = cases(g, 30, ma=[1, 2, 4, 7], mb=[3, 5, 6], kh=[0, 1, 2, 3, 4], sa=[0, 1, 2], sb=[0, 1, 2])
    sl = [[5], [3, 5], [5, 9]]
    ga, gb = HIST[kh]
    d = dec(g)
    A = Msg(g, 'a', 'GPS', ma, sl[sa], ga, [(s, b) for s in sl[sa] for b in ga if (s+b) % 5 or s == 5])
    B = Msg(g, 'b', 'GPS', mb, sl[sb], gb, [(s, b) for s in sl[sb] for b in gb])
    for x in (A, B):
        g.setfield(x.m, 48, 30, 5000)
    A.send(d)
    obs = B.send(d)[1]
    for ka, a in enumerate(sl[sb]):
        for kb, b in enumerate(gb):
            c = B.cell.index((a, b))
            t, h = B.at('t', c), B.at('h', c)
            tp = A.at('t', A.cell.index((a, b))) if (a, b) in A.cell and ma > 1 else 0
            lost = Or(And(t == 0, tp == 0), t < tp)
            g.ensure('loss of lock: the lock time of that satellite and signal did not grow', obs.lli[ka, kb] == Ite(h == 1, 3, Ite(lost, 1, 0)))


@contract('R02', fns=[M+'decode_msm_time', M+'decode_time'], n=300, tmo=100)
def epoch(g):
    sy = SYS[g.choice('sys', list(range(6)))]
    d = dec(g)
    d.week = [1936, 2300, 2301, 4000][g.choice('wk', [0, 1, 2, 3])]
    msg = g.buf('msg', 256)
    g.setfield(msg, 24, 12, BASE[sy]+g.choice('msm', [3, 6]))
    t = g.field(msg, 48, 30)
    if sy == 'GLO':
        dow = g.choice('dow', list(range(7)))
        g.setfield(msg, 48, 3, dow)
        t = g.field(msg, 48, 30)
        tod = t & 0x7ffffff
        g.assume(tod < 86400000)
        ms, sh = dow*86400000+tod, -10800000
    else:
        g.assume(t < 604800000)
        ms, sh = t, 14000 if sy == 'BDS' else 0
    # leap seconds since 2017
    if sy == 'GLO':
        sh += 18000
    if g.choice('via', [0, 1]):
        r = g.call(M+'decode_time', d, msg)
    else:
        r, _ = g.call(M+'decode_msm_time', d, U(sy), d.week, t)
    tot = ms+sh
    want = Ite(tot < 0, tot+604800000, Ite(tot >= 604800000, tot-604800000, tot))
    g.ensure('instant of the observations in GPS time in the current week', close((r.time-315964800-604800*d.week)+r.sec, want*1e-3, 1e-6))


@contract('R02', fns=[M+'decode_msm'], n=20)
def oversized(g):
    """more cells than a message may have: no observation, no failure"""
    d = dec(g)
    msg = g.buf('msg', 256)
    g.setfield(msg, 24, 12, 1074)
    g.setfield(msg, 97, 64, [2**64-1, 2**64-1, 0xff << 56][g.choice('m', [0, 1, 2])])
    g.setfield(msg, 161, 32, (0xffff << 8) if g.choice('s', [0, 1]) else 0x1ff00)
    r = g.call(M+'decode', d, msg)
    g.ensure('no observation', And(len(r) == 5, r[1] is None))


@contract('R02', fns=[M+'decode_msm'], n=40, tmo=100)
def fullest(g):
    """the largest messages the format allows: 64 cells, many satellites or many signals"""
    ns, ng, every, msm = g.choice('size', [(8, 8, 0, 7), (32, 2, 0, 1), (4, 15, 1, 4), (4, 15, 0, 7)] if g.symbolic else
                                  [(a, b, c, m) for m in (1, 4, 5, 7) for a, b, c in ((8, 8, 0), (32, 2, 0), (4, 15, 1), (4, 15, 0), (5, 12, 1), (32, 2, 1))])
    sats, sgs = list(range(1, 33, 32//ns))[:ns], [2, 3, 4, 8, 9, 10, 15, 16, 17, 22, 23, 24, 30, 31, 32][:ng]
    cells = [(a, b) for a in sats for b in sgs] if every else [(a, sgs[-1-k % ng]) for k, a in enumerate(sats)]
    d = dec(g)
    x = Msg(g, 'msg', 'GPS', msm, sats, sgs, cells, 7000)
    g.setfield(x.m, 48, 30, 1000)
    i, obs, eph, geph, seph = x.send(d)
    g.ensure('an observation message', obs is not None)
    g.ensure('end of the message', i == x.end)
    g.ensure('satellites in the order of the mask', [int(a) for a in obs.sat] == [number('GPS', a) for a in sats])
    R, T = resolve('gnss:rSigRnx'), resolve('gnss:uTYP')
    g.ensure('one column per signal', obs.P.shape == (ns, ng) and all(list(obs.sig[U('GPS')][getattr(T, t)]) == [R('G'+t+SIG['GPS'][b]) for b in sgs]
                                                                     for t in 'CLS'))
    for ka in sorted({0, ns//2, ns-1}):
        rg, ok = x.rough(ka)
        for kb in range(ng):
            P, I, S = obs.P[ka, kb], obs.lli[ka, kb], obs.S[ka, kb]
            if (sats[ka], sgs[kb]) not in x.cell:
                g.ensure('nothing without a cell', And(P == 0, I == 0, S == 0))
                continue
            if kb not in (0, ng//2, ng-1) and kb < 11:
                continue
            c = x.cell.index((sats[ka], sgs[kb]))
            p, s, h, t = x.at('p', c, True), x.at('s', c), x.at('h', c), x.at('t', c)
            okp = And(ok, p != -(1 << (x.f['p'][1]-1)))
            want = (rg*2.0**-10+p*(2.0**-29 if msm > 5 else 2.0**-24))*RMS
            g.ensure('pseudorange', And(Implies(okp, close(P, want)), Implies(Not(okp), P == 0)))
            if s is not None:
                g.ensure('carrier to noise ratio', close(S, s*(0.0625 if msm > 5 else 1.0)))
            if t is not None:
                g.ensure('loss of lock and half-cycle ambiguity', I == Ite(h == 1, 3, Ite(t == 0, 1, 0)))
