"""shared by the compact SSR contracts: decoder states and message fields"""
import numpy as np
from vc.api import And, Or, Not, Implies, Ite, close, same, isnan, resolve, Iff

NAN = float('nan')


def en(mod, cls, name):
    return getattr(resolve('%s:%s' % (mod, cls)), name)


def U(n):
    return en('gnss', 'uGNSS', n)


def CT(n):
    return en('cssrlib', 'sCType', n)


# satellites used in unrolled lists: (constellation, satellite number, IODE width)
def sats(names):
    base = {'G': ('GPS', 0), 'E': ('GAL', 32), 'J': ('QZS', 68-192), 'C': ('BDS', 85), 'R': ('GLO', 148)}
    out = []
    for nm in names:
        s, o = base[nm[0]]
        prn = int(nm[1:])+(192 if nm[0] == 'J' else 0)
        out.append((s, o+prn))
    return out


LISTS = [[], ['G05'], ['E11'], ['G01', 'E36'], ['E02', 'J03', 'G32'], ['C30', 'E05', 'R07']]
# as many satellites as a mask may list
FULL = ['G%02d' % k for k in range(1, 33)]+['E%02d' % k for k in range(1, 37)]+['J%02d' % k for k in range(1, 8)]+['R%02d' % k for k in range(1, 25)]
MANY = ['G07', 'E30', 'J02', 'R11']
ALLSIGS = {'GPS': 'L1C L1P L1W L1S L1L L1X L2S L2L L2X L2P L2W L5I L5Q L5X'.split(), 'GLO': 'L1C L1P L2C L2P L4A L4B L4X L6A L6B L6X L3I L3Q L3X'.split(),
           'GAL': 'L1B L1C L1X L5I L5Q L5X L7I L7Q L7X L8I L8Q L8X L6B L6C L6X'.split(), 'QZS': 'L1C L1S L1L L1X L2S L2L L2X L5I L5Q L5X L6D L6P L6E L1E'.split()}
SIGS = {'GPS': ['L1C', 'L2W'], 'GAL': ['L1C', 'L5Q', 'L7Q'], 'QZS': ['L1C'], 'BDS': ['L2I', 'L6I'], 'GLO': ['L1C', 'L2C']}


def decoder(g, lst, cls='cssrlib:cssr', sigs=None):
    """decoder whose current mask lists the given satellites"""
    d = resolve(cls)()
    d.monlevel = 0
    sl = sats(lst)
    d.nsat_n = len(sl)
    d.sat_n = [s for _, s in sl]
    d.sys_n = [U(c) for c, _ in sl]
    d.gnss_n = list(d.sys_n)
    R, T, G = resolve('gnss:rSigRnx'), resolve('gnss:uTYP'), resolve('gnss:uSIG')
    d.sig_n = {s: [R(U(c), T.L, getattr(G, n)) for n in (sigs or SIGS)[c]] for c, s in sl}
    d.nsig_n = [len(d.sig_n[s]) for _, s in sl]
    d.nsig_total = sum(d.nsig_n)
    d.ngnss = len({c for c, _ in sl})
    d.week = 2200
    d.tow0 = 3600*50
    d.tow = d.tow0
    d.lc[0].cstat |= 1 << CT('MASK')
    d.iodssr = g.int('iodssr', 0, 15)
    g.lift(d, 3)
    return d, sl


def selection(g, msg, i, n, nm=''):
    """the selection bits of n listed satellites: free, a pattern for many satellites"""
    if n < 9:
        return [bool(g.bitat(msg, i+k)) for k in range(n)]
    p = g.choice('pattern'+nm, [(0, 1), (n//2, 1), (2, 3)][2 if g.symbolic else 0:])
    sel = [k >= p[0] and k % p[1] == p[0] % p[1] for k in range(n)]
    for k in range(n):
        g.setfield(msg, i+k, 1, int(sel[k]))
    return sel


def isn(raw, w):
    """the not-available pattern of a signed field"""
    return raw == -(1 << (w-1))


def field_is(g, got, raw, w, scl, off=0.0):
    """signed field: value = raw*scl (+off), not-available -> NaN"""
    if off:
        return Or(And(isn(raw, w), isnan(got)), And(Not(isn(raw, w)), Not(isnan(got)), close(got, raw*scl+off, 1e-9)))
    return Or(And(isn(raw, w), isnan(got)), And(Not(isn(raw, w)), Not(isnan(got)), close(got, raw*scl, 1e-9)))


def rsig(c, typ, name):
    return resolve('gnss:rSigRnx')(U(c), getattr(resolve('gnss:uTYP'), typ), getattr(resolve('gnss:uSIG'), name))


def head_fields(g, msg, i):
    """dtow, update interval, iodssr of a non-mask header at bit i"""
    return g.field(msg, i, 12), g.field(msg, i+12, 4), g.field(msg, i+17, 4)


def same_time(t, u):
    return And(t.time == u.time, close(t.sec, u.sec))
