"""C01 the compact SSR mask message fixes which satellites and signals later messages speak about."""
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff, resolve
from .cssr_common import U, CT, rsig, same_time, en

OFF = {0: ('GPS', 0, 32), 1: ('GLO', 148, 24), 2: ('GAL', 32, 36), 3: ('BDS', 85, 40), 4: ('QZS', 68-192+192, 10), 7: ('BDS', 85+18, 40)}
SG = {'GPS': 'L1C L1P L1W L1S L1L L1X L2S L2L L2X L2P L2W L5I L5Q L5X'.split(),
      'GLO': 'L1C L1P L2C L2P L4A L4B L4X L6A L6B L6X L3I L3Q L3X'.split(),
      'GAL': 'L1B L1C L1X L5I L5Q L5X L7I L7Q L7X L8I L8Q L8X L6B L6C L6X'.split(),
      'BDS': 'L2I L2Q L2X L6I L6Q L6X L7I L7Q L7X L1D L1P L1X L5D L5P L5X'.split(),
      'QZS': 'L1C L1S L1L L1X L2S L2L L2X L5I L5Q L5X L6D L6P L6E L1E'.split(),
      'SBS': 'L1C L5I L5Q L5X'.split()}
FM = ['cssrlib:cssr.decode_cssr_mask', 'cssrlib:cssr.decode_head', 'cssrlib:cssr.decode_mask', 'cssrlib:cssr.gnss2sys', 'cssrlib:cssr.ssig2rsig', 'cssrlib:cssr.set_t0']


@contract('C01', fns=['cssrlib:cssr.ssig2rsig'], n=200)
def signal_table(g):
    c = g.choice('c', list(SG))
    k = g.choice('k', range(len(SG[c])))
    t = g.choice('t', ['C', 'L', 'D', 'S'])
    d = resolve('cssrlib:cssr')()
    r = g.call('cssrlib:cssr.ssig2rsig', d, U(c), getattr(resolve('gnss:uTYP'), t), k)
    g.ensure('mask position names the RINEX signal', And(r.sys == U(c), r.typ == getattr(resolve('gnss:uTYP'), t), r.sig == getattr(resolve('gnss:uSIG'), SG[c][k])))


@contract('C01', fns=['cssrlib:cssr.gnss2sys', 'cssrlib:sgnss2sys', 'cssrlib:sys2sgnss'], n=100)
def constellation_table(g):
    k = g.choice('k', list(OFF)+[5])
    c = 'SBS' if k == 5 else OFF[k][0]
    d = resolve('cssrlib:cssr')()
    g.ensure('identifier names the constellation', g.call('cssrlib:cssr.gnss2sys', d, k) == U(c))
    g.ensure('same table outside the class', g.call('cssrlib:sgnss2sys', k) == U(c))
    g.ensure('and back', Or(k == 7, g.call('cssrlib:sys2sgnss', U(c)) == k))


@contract('C01', fns=['cssrlib:cssr.decode_mask', 'cssrlib:cssr.isset', 'cssrlib:cssr.decode_local_sat'], n=600, tmo=100)
def bit_lists(g):
    w = g.choice('w', [1, 3, 8] if g.symbolic else range(1, 41))
    v, o = g.int('v', 0, (1 << w)-1), g.choice('o', [0, 1])
    d = resolve('cssrlib:cssr')()
    lst, n = g.call('cssrlib:cssr.decode_mask', d, v, w, o)
    want = [k for k in range(w) if bool((v//(1 << (w-1-k))) % 2 == 1)]
    g.ensure('set bits, first bit first', And(n == len(want), len(lst) == len(want), [a == b+o for a, b in zip(lst, want)]))
    d.nsat_n, d.sat_n = w, [100+k for k in range(w)]
    loc = g.call('cssrlib:cssr.decode_local_sat', d, v)
    g.ensure('satellites selected by a network mask', And(len(loc) == len(want), [a == 100+b for a, b in zip(loc, want)]))


# (constellation id, satellites, signals, cell mask present)
CASES = [[], [(0, [1], [0], 0)], [(0, [32, 5], [0, 10], 1)], [(2, [36, 1], [1, 4], 1)], [(1, [24], [0, 2, 12], 0)],
         [(4, [7], [2, 4, 8], 1)], [(3, [40, 2], [0, 3, 14], 0)], [(7, [1, 40], [12], 1)],
         [(0, [3, 30], [0, 9], 1), (2, [2, 11], [1], 0)], [(2, [5], [1, 7], 1), (4, [3], [0, 13], 0), (0, [31], [8], 1)],
         [(3, [6], [1], 0), (7, [6], [0, 9], 1)], [(0, [], [0, 1], 0), (1, [9], [3], 1)]]


def case(g):
    if g.symbolic:
        return g.choice('case', CASES)
    out = []
    for k in range(g.choice('ngnss', range(0, 5))):
        gid = g.choice('gnss%d' % k, [x for x in OFF if x not in [o[0] for o in out] and not (x in (3, 7) and any(o[0] in (3, 7) for o in out))])
        c, _, npr = OFF[gid]
        p, q = g.choice('p%d' % k, [0.05, 0.3, 0.8, 1.0]), g.choice('q%d' % k, [0.1, 0.4, 1.0])
        sv = [s for s in range(1, npr+1) if g.real('s%d_%d' % (k, s), 0, 1) <= p]
        sg = [s for s in range(len(SG[c])) if g.real('g%d_%d' % (k, s), 0, 1) <= q]
        out.append((gid, sv, sg, g.choice('cm%d' % k, [0, 1]) if sg else 0))
    return out


def write_mask(g, msg, i, gid, sv, sg, cm):
    """one constellation block; returns the end and the signals of each satellite"""
    g.setfield(msg, i, 4, gid)
    g.setfield(msg, i+4, 40, sum(1 << (40-s) for s in sv))
    g.setfield(msg, i+44, 16, sum(1 << (15-s) for s in sg))
    g.setfield(msg, i+60, 1, cm)
    i = i+61
    rows = []
    for s in sorted(sv):
        if cm:
            rows.append([x for n, x in enumerate(sorted(sg)) if bool(g.bitat(msg, i+n))])
            i = i+len(sg)
        else:
            rows.append(sorted(sg))
    return i, rows


@contract('C01', fns=FM, n=400, tmo=150, weight=4, max_paths=4000)
def mask_message(g):
    cs = case(g)
    has = g.choice('has', [False, True] if not g.symbolic or len(cs) in (0, 2) else [False])
    d = resolve('cssrlib:cssr')()
    if has:
        d.cssrmode = en('cssrlib', 'sCSSRTYPE', 'GAL_HAS_SIS')
    d.week = 2200
    d.iodssr = g.int('iodssr', 0, 15)
    old_sat, old_sig = [7, 8], {7: [], 8: []}
    d.sat_n, d.sig_n = old_sat, old_sig
    d.sat_n_p, d.sig_n_p, d.iodssr_p = None, None, -2
    msg = g.buf('msg', 61*8+40*16*4+400)
    i0 = g.int('i', 0, 64)
    tow = g.field(msg, i0, 20)
    g.assume(tow < 604800)
    iod = g.field(msg, i0+25, 4)
    old_iod = d.iodssr
    i = i0+29
    g.setfield(msg, i, 4, len(cs))
    i = i+4
    want, nm = [], []
    for gid, sv, sg, cm in cs:
        i, rows = write_mask(g, msg, i, gid, sv, sg, cm)
        want += [(gid, s, r, sg) for s, r in zip(sorted(sv), rows)]
        if has:
            nm.append((gid, g.field(msg, i, 3)))
            i = i+3
    if has:
        i = i+6
    end = g.call('cssrlib:cssr.decode_cssr_mask', d, msg, i0)
    g.ensure('message length', end == i)
    g.ensure('satellites in mask order', And(d.nsat_n == len(want), len(d.sat_n) == len(want), [d.sat_n[k] == OFF[w[0]][1]+w[1] for k, w in enumerate(want)]))
    g.ensure('constellation of each', And(len(d.sys_n) == len(want), [d.sys_n[k] == U(OFF[w[0]][0]) for k, w in enumerate(want)], len(d.gnss_n) == len(want), [d.gnss_n[k] == w[0] for k, w in enumerate(want)]))
    g.ensure('signal counts', And(len(d.nsig_n) == len(want), [d.nsig_n[k] == len(w[2]) for k, w in enumerate(want)], d.nsig_total == sum(len(w[2]) for w in want)))
    for k, w in enumerate(want):
        c = OFF[w[0]][0]
        got = d.sig_n[OFF[w[0]][1]+w[1]]
        if len(want) <= 8 or k % 7 == 0:
            g.ensure('signals of each satellite', And(len(got) == len(w[2]), [And(a.sys == U(c), a.sig == getattr(resolve('gnss:uSIG'), SG[c][s])) for a, s in zip(got, w[2])]))
    g.ensure('no other satellite has signals', len(d.sig_n) == len(want))
    g.ensure('issue of data', d.iodssr == iod)
    if bool(iod == old_iod):
        g.ensure('same issue: earlier mask not replaced', And(d.sat_n_p is None, d.iodssr_p == -2))
    else:
        g.ensure('new issue: the superseded mask is kept', And(d.sat_n_p == [7, 8], d.iodssr_p == old_iod, d.sig_n_p == {7: [], 8: []}))
    g.ensure('mask received', d.lc[0].cstat & (1 << CT('MASK')) != 0)
    t = g.call('gnss:gpst2time', 2200, tow)
    g.ensure('epoch of the message', And(d.tow == tow, same_time(d.time, t)))
    g.ensure('reference hour for later messages', d.tow0 == tow-tow % 3600)
    if has:
        g.ensure('navigation message index', And([d.nm_idx[a] == b for a, b in nm]))
