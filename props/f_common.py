"""shared set-up for the filter contracts"""
import itertools
import random
from functools import lru_cache
import numpy as np
from vc.api import resolve

G = resolve('gnss:uGNSS')
T = resolve('gnss:uTYP')
SIG = {G.GPS: ('C1C', 'C2W'), G.GAL: ('C1C', 'C5Q'), G.GLO: ('C1C', 'C2C'), G.BDS: ('C2I', 'C6I'), G.QZS: ('C1C', 'C5Q')}
CH = {G.GPS: 'G', G.GAL: 'E', G.GLO: 'R', G.BDS: 'C', G.QZS: 'J'}


def sigs(sys, nf):
    R = resolve('gnss:rSigRnx')
    out = {}
    for t, c in ((T.C, 'C'), (T.L, 'L'), (T.S, 'S')):
        out[t] = [R(CH[sys]+c+s[1:]) for s in SIG[sys][:nf]]
    return out


def freq(sys, k, ch=0):
    c = resolve('gnss:rCST')
    return {G.GPS: (1575.42e6, 1227.60e6), G.GAL: (1575.42e6, 1176.45e6), G.QZS: (1575.42e6, 1176.45e6),
            G.BDS: (1561.098e6, 1268.52e6), G.GLO: (1602e6+ch*562.5e3, 1246e6+ch*437.5e3)}[sys][k]


CL = 299792458.0


def sat(sys, prn):
    return resolve('gnss:prn2sat')(sys, prn)


def cfg(**kw):
    from copy import deepcopy
    c = deepcopy(resolve('gnss:default_config'))
    c['nav'].update(kw)
    return c


def engine(nf=1, pmode=1, cls='pppssr:pppos', **kw):
    """a real positioning object in its initial state"""
    nav = resolve('gnss:Nav')(nf)
    nav.pmode = pmode
    o = resolve(cls)(nav, np.array([-3957e3, 3310e3, 3737e3]), config=cfg(**kw))
    return o, nav


def history(nav):
    """traces of earlier epochs which the functions under contract must not depend on"""
    nav.outc[:], nav.fix[:], nav.el[:], nav.smode, nav.ns = 2, 3, 0.4, 4, 7


@lru_cache(None)
def _cases(sizes, n):
    """every combination of choices, and a sample in which each pair of values occurs"""
    allc = list(itertools.product(*[range(k) for k in sizes]))
    random.Random(7).shuffle(allc)
    pair = lambda x: {(a, x[a], b, x[b]) for a in range(len(x)) for b in range(a)}
    todo = {(a, i, b, j) for a in range(len(sizes)) for b in range(a) for i in range(sizes[a]) for j in range(sizes[b])}
    pick = []
    for need in (max(1, len(sizes)//2), 1):
        for x in allc[:20000]:
            if not todo:
                break
            c = pair(x)
            if len(c & todo) >= need:
                pick.append(x)
                todo -= c
    for x in allc[:n]:
        if len(pick) < n and x not in pick:
            pick.append(x)
    return allc, pick


def cases(g, n, **dims):
    """a combination of discrete choices: every one at run time, a fixed sample
    (each pair of values occurs) when proving"""
    ks = list(dims)
    allc, pick = _cases(tuple(len(dims[k]) for k in ks), n)
    if g.symbolic or 'ix:case' in g.given:
        x = pick[g.choice('case', list(range(len(pick))))]
    else:
        x = allc[g.choice('anycase', range(len(allc)))]
    return [dims[k][i] for k, i in zip(ks, x)]


class Patch:
    """give a module constant another value while the block runs"""

    def __init__(self, mod, **kw):
        import importlib
        self.m, self.kw = importlib.import_module('cssrlib.'+mod), kw

    def __enter__(self):
        self.old = {k: getattr(self.m, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.m, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)


class Few:
    """the satellite system constants for a world of n satellites"""

    def __init__(self, n):
        for k, v in G.__members__.items():
            setattr(self, k, v)
        self.MAXSAT = n
