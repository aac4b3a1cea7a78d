"""C07 network corrections are interpolated at the receiver from the right network and grid points."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT
from .C05_atmos import GRID, NET

F = ['cssrlib:cssr.find_grid_index', 'cssrlib:cssr.get_dpos', 'cssrlib:cssr.get_trop', 'cssrlib:cssr.get_stec']
DT = GRID.dtype


@contract('C07', fns=F, n=1500, conc_s=12, prove=False, why='arg-min and sorting over floating-point distances')
def surrounding_grid_points(g):
    d = resolve('cssrlib:cssr')()
    nn = g.int('nets', 1, 4)
    rows = []
    for k in range(nn):
        la, lo, m = g.real('la%d' % k, -60, 60), g.real('lo%d' % k, -179, 170), g.choice('m%d' % k, [1, 2, 3, 4, 5, 6, 8, 12, 40])
        st, nx = g.choice('st%d' % k, [0.3, 0.6]), g.int('nx%d' % k, 1, 8)
        for q in range(m):
            rows.append((k+1, q+1, la+st*(q//nx), lo+st*(q % nx), 0.0))
    d.grid = np.array(rows, dtype=DT)
    a = rows[g.int('near', 0, 1000) % len(rows)]
    p = np.deg2rad([a[2]+g.real('da', -0.4, 0.4), a[3]+g.real('db', -0.4, 0.4)])
    if g.choice('at', [0, 0, 0, 1]):
        p = np.deg2rad([a[2]+0.01, a[3]-0.01])
    r = np.hypot(np.deg2rad(d.grid['lat'])-p[0], (np.deg2rad(d.grid['lon'])-p[1])*math.cos(p[0]))*6378137.0
    k = np.argsort(r, kind='stable')
    g.assume(len(r) < 2 or r[k[1]]-r[k[0]] > 1e-3)
    g.assume(abs(r[k[0]]-5000) > 1e-3)
    n = g.call('cssrlib:cssr.find_grid_index', d, np.array([p[0], p[1], 0.0]))
    g.ensure('network of the nearest grid point', n == rows[k[0]][0] and d.inet_ref == n)
    idx, w = np.atleast_1d(d.grid_index), np.atleast_1d(d.grid_weight)
    g.ensure('weights are positive and sum to one', len(idx) == len(w) and (w > 0).all() and abs(w.sum()-1) < 1e-9)
    if r[k[0]] < 5000:
        g.ensure('at a grid point: that point alone', list(idx) == [rows[k[0]][1]])
        return
    mine = sorted((r[j], rows[j][1]) for j in range(len(rows)) if rows[j][0] == n)
    near = [q for _, q in mine[:3]]
    tie = len(mine) > 3 and mine[3][0]-mine[2][0] < 1e-3
    if not tie:
        g.ensure('the three nearest points of the network', set(idx[:3]) == set(near[:len(idx)]) and len(idx) >= min(3, len(mine)))
    g.ensure('at most four distinct points', len(set(idx)) == len(idx) <= 4)
    if len(mine) > 3 and not any(mine[j+1][0]-mine[j][0] < 1e-3 for j in range(len(mine)-1)):
        at = {v[1]: np.array([math.radians(v[2])-p[0], (math.radians(v[3])-p[1])*math.cos(p[0])]) for v in rows if v[0] == n}
        side = lambda a, b, c: (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])
        q0, o = [at[q] for q in near], np.zeros(2)
        s = [[side(q0[0], q0[k], x)*side(q0[0], q0[k], o) for k in (1, 2)] for x in [at[q] for _, q in mine[3:]]]
        if all(abs(x) > 1e-16 for y in s for x in y):
            four = [mine[3+k][1] for k in range(len(s)) if min(s[k]) > 0][:1]
            g.ensure('the fourth point is the nearest on the receiver side of the lines to the second and third', list(idx) == near+four)
    dist = {q: x for x, q in mine}
    g.ensure('points of that network', all(q in dist for q in idx))
    q = np.array([1/dist[j] for j in idx])
    g.ensure('weights inversely proportional to distance', np.abs(w-q/q.sum()).max() < 1e-9)


@contract('C07', fns=F, n=300)
def offset_from_reference(g):
    d = resolve('cssrlib:cssr')()
    d.grid = GRID.copy()
    d.inet_ref = g.choice('net', [5, NET])
    la, lo = g.real('la', -90, 90), g.real('lo', -180, 180)
    k = 0 if d.inet_ref == 5 else 1
    p = g.array([la*math.pi/180, lo*math.pi/180, 0.0])
    a, b = g.call('cssrlib:cssr.get_dpos', d, p)
    g.ensure('degrees from the first grid point of the network', And(close(a, la-GRID[k]['lat'], 1e-9), close(b, lo-GRID[k]['lon'], 1e-9)))


def grid(g, n):
    idx = g.choice('idx', [[1], [2, 4, 1], [3, 1, 2, 5]])
    w = [g.real('w%d' % k, 0, 1) for k in range(len(idx))]
    return idx, w


@contract('C07', fns=F, n=500)
def zenith_delays(g):
    d = resolve('cssrlib:cssr')()
    d.inet_ref = n = g.choice('net', [0, 3, NET])
    L, f = d.lc[n], g.choice('f', range(4))
    L.flg_trop = f
    idx, w = grid(g, n)
    d.grid_index, d.grid_weight = np.array(idx), g.array(w)
    ct = [[g.real('c%d%d' % (a, b), -1, 3) for b in range(4)] for a in range(2)]
    L.ct = g.array(ct)
    hyd = g.choice('dth', [False, True])
    h, v = [g.real('h%d' % k, -1, 1) for k in range(5)], [g.real('v%d' % k, -1, 1) for k in range(5)]
    L.dth, L.dtw = g.array(h) if hyd else None, g.array(v)
    x, y = g.real('dlat', -3, 3), g.real('dlon', -3, 3)
    th, tw = g.call('cssrlib:cssr.get_trop', d, x, y)
    wh = ww = 0
    if f & 2:
        wh, ww = [c[0]+c[1]*x+c[2]*y+c[3]*x*y for c in ct]
    if f & 1:
        if hyd:
            wh = wh+sum(h[k-1]*q for k, q in zip(idx, w))
        ww = ww+sum(v[k-1]*q for k, q in zip(idx, w))
    g.ensure('hydrostatic part', close(th, wh, 1e-9))
    g.ensure('wet part', close(tw, ww, 1e-9))


@contract('C07', fns=F, n=500)
def slant_delays(g):
    d = resolve('cssrlib:cssr')()
    d.inet_ref = n = g.choice('net', [3, NET])
    L, f = d.lc[n], g.choice('f', range(4))
    L.flg_stec = f
    idx, w = grid(g, n)
    d.grid_index, d.grid_weight = np.array(idx), g.array(w)
    L.sat_n = g.choice('sats', [[], [5], [40, 12], list(range(3, 90, 5))])
    L.nsat_n = len(L.sat_n)
    nc = g.choice('nc', [3, 6])
    ci = {s: [g.real('c%d_%d' % (s, k), -100, 100) for k in range(nc)] for s in L.sat_n}
    ds = {s: [g.real('r%d_%d' % (s, k), -10, 10) for k in range(5)] for s in L.sat_n}
    L.ci, L.dstec = {s: g.array(ci[s]) for s in ci}, {s: g.array(ds[s]) for s in ds}
    x, y = g.real('dlat', -3, 3), g.real('dlon', -3, 3)
    st = g.call('cssrlib:cssr.get_stec', d, x, y)
    g.ensure('one value per satellite', len(st) == len(L.sat_n))
    for k, s in enumerate(L.sat_n):
        v, c = 0, ci[s]
        if f & 2:
            v = c[0]+c[1]*x+c[2]*y
            if nc == 6:
                v = v+c[3]*x*y+c[4]*x*x+c[5]*y*y
        if f & 1:
            v = v+sum(ds[s][j-1]*q for j, q in zip(idx, w))
        g.ensure('slant delay of each satellite', close(st[k], v, 1e-9))
