"""C05 compact SSR ionosphere and troposphere messages are decoded per network, satellite and grid point."""
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, FULL, selection, decoder, field_is, head_fields, same_time
from .C04_quality import quality_of

F = ['cssrlib:cssr.decode_cssr_stec', 'cssrlib:cssr.decode_cssr_grid', 'cssrlib:cssr.decode_cssr_atmos', 'cssrlib:cssr.decode_cssr_stec_coeff',
     'cssrlib:cssr.decode_local_sat', 'cssrlib:cssr.decode_head', 'cssrlib:cssr.quality_idx', 'cssrlib:cssr.set_t0', 'cssrlib:cssr.sval']
NET = 7
GRID = np.array([(5, 1, 34.0, 135.0, 0.0), (NET, 1, 35.5, 139.0, 0.0), (NET, 2, 35.5, 139.5, 0.0), (NET, 3, 36.0, 139.0, 0.0), (NET, 4, 36.0, 139.5, 0.0), (NET, 5, 36.2, 140., 0.0)],
                dtype=[('nid', '<i4'), ('gid', '<i4'), ('lat', '<f8'), ('lon', '<f8'), ('alt', '<f8')])


def start(g, lst):
    d, sl = decoder(g, lst)
    d.grid = GRID.copy()
    big = len(lst) > 3
    msg, i0 = g.buf('msg', (10500 if g.symbolic else 60000) if big else 2400), g.int('i', 0, 0 if big else 120)
    g.setfield(msg, i0, 12, g.choice('dtow', [5] if g.symbolic else [0, 5, 1800, 3599]))
    dtow, udi, iod = head_fields(g, msg, i0)
    return d, sl, msg, i0, i0+21, d.tow0+dtow, udi, iod


def coeffs(g, msg, i, stype, ci):
    """polynomial terms present for the type; the others are zero"""
    lay = [(14, 0.05, 0)]
    if stype > 0:
        lay += [(12, 0.02, 1), (12, 0.02, 2)]
    if stype > 1:
        lay += [(10, 0.02, 3)]
    if stype > 2:
        lay += [(8, 0.005, 4), (8, 0.005, 5)]
    ok = []
    for w, s, k in lay:
        ok.append(field_is(g, ci[k], g.field(msg, i, w, True), w, s))
        i = i+w
    ok += [ci[k] == 0 for k in range(len(lay), 6)]
    return And(ok), i


def netsel(g, msg, i, sl):
    sel = selection(g, msg, i, len(sl))
    return [s for k, (c, s) in enumerate(sl) if sel[k]]


def nets(L, use):
    return And(L.nsat_n == len(use), len(L.sat_n) == len(use), [a == b for a, b in zip(L.sat_n, use)])


@contract('C05', fns=F, n=400, tmo=100, weight=2)
def stec_message(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, g.choice('lst', [['E11'], ['G01', 'E36', 'J03'], FULL]))
    g.assume(iod == d.iodssr)
    if len(sl) > 3:
        g.setfield(msg, i, 2, g.choice('type', [3] if g.symbolic else [1, 3]))
    st, i = g.field(msg, i, 2), i+2
    g.setfield(msg, i, 5, NET)
    use, i = netsel(g, msg, i+5, sl), i+5+len(sl)
    st = g.concretize(st)
    e = g.call('cssrlib:cssr.decode_cssr_stec', d, msg, i0)
    L, t = d.lc[NET], g.call('gnss:gpst2time', 2200, tow)
    g.ensure('satellites of the network', And(nets(L, use), len(L.ci) == len(use)))
    for s in use:
        g.ensure('quality', quality_of(g, L.stec_quality[s], g.field(msg, i, 3), g.field(msg, i+3, 3)))
        ok, i = coeffs(g, msg, i+6, st, L.ci[s])
        g.ensure('polynomial coefficients', ok)
        g.ensure('reference time', same_time(L.t0[s][CT('STEC')], t))
    g.ensure('message length', e == i)
    g.ensure('bookkeeping', And(d.udi[CT('STEC')] == udi, L.cstat & (1 << CT('STEC')) != 0, L.flg_stec & 2 != 0, d.flg_net, same_time(d.time, t)))


@contract('C05', fns=F, n=200)
def other_mask_is_refused(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, ['G01', 'E36'])
    g.assume(iod != d.iodssr)
    f = g.choice('f', ['stec', 'grid', 'atmos'])
    g.ensure('refused', g.call('cssrlib:cssr.decode_cssr_'+f, d, msg, i0) == -1)
    g.ensure('nothing flagged', And([x.cstat == (1 if k == 0 else 0) for k, x in enumerate(d.lc)]))


@contract('C05', fns=F, n=400, tmo=150, weight=3)
def grid_message(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, g.choice('lst', [['E11'], ['G01', 'E36'], FULL[20:40]]))
    g.assume(iod == d.iodssr)
    if len(sl) > 3:
        g.setfield(msg, i, 3, 6)
    tt, rng = g.field(msg, i, 2), g.field(msg, i+2, 1)
    g.setfield(msg, i+3, 5, NET)
    use, i = netsel(g, msg, i+8, sl), i+8+len(sl)
    q = (g.field(msg, i, 3), g.field(msg, i+3, 3))
    ng = g.choice('ng', [63 if len(use) < 11 else 40] if len(sl) > 3 else [1, 3] if g.symbolic else range(6))
    g.setfield(msg, i+6, 6, ng)
    i = i+12
    tr, w = bool(tt > 0), 7 if bool(rng == 0) else 16
    d.lc[NET].flg_stec = had = g.int('had', 0, 1)*2
    e = g.call('cssrlib:cssr.decode_cssr_grid', d, msg, i0)
    L, t = d.lc[NET], g.call('gnss:gpst2time', 2200, tow)
    g.ensure('network', And(L.ng == ng, nets(L, use), quality_of(g, L.trop_quality, *q)))
    for j in range(ng):
        if tr:
            g.ensure('hydrostatic and wet residual at each grid point', And(field_is(g, L.dth[j], g.field(msg, i, 9, True), 9, 0.004), field_is(g, L.dtw[j], g.field(msg, i+9, 8, True), 8, 0.004)))
            i = i+17
        for s in use:
            g.ensure('slant delay residual of each satellite and grid point', field_is(g, L.dstec[s][j], g.field(msg, i, w, True), w, 0.04))
            i = i+w
    g.ensure('message length', e == i)
    g.ensure('residuals add to the functional part received before', L.flg_stec == had+1)
    g.ensure('troposphere present', Iff(L.flg_trop != 0, tr))
    if tr:
        g.ensure('functional part is the nominal zenith delay', And(close(L.ct[0, 0], 2.3), close(L.ct[1, 0], 0.252), [And(L.ct[a, b] == 0) for a in (0, 1) for b in (1, 2, 3)], L.flg_trop == 3))
    g.ensure('bookkeeping', And(d.udi[CT('TROP')] == udi, L.cstat & (1 << CT('TROP')) != 0, same_time(d.time, t), [same_time(L.t0[s][CT('TROP')], t) for s in use]))


def atmos(g, lst, trop, stec):
    d, sl, msg, i0, i, tow, udi, iod = start(g, lst)
    g.assume(iod == d.iodssr)
    g.setfield(msg, i, 2, trop)
    g.setfield(msg, i+2, 2, stec)
    g.setfield(msg, i+4, 5, NET)
    big = len(sl) > 3
    ng = g.choice('ng', [40, 63] if big and not g.symbolic else [25] if big else [1, 3] if g.symbolic else range(6))
    g.setfield(msg, i+9, 6, ng)
    i = i+15
    # walk the message first: what each part must decode to
    chk = []
    if trop:
        chk.append(('troposphere quality', lambda L, i=i: quality_of(g, L.trop_quality, g.field(msg, i, 3), g.field(msg, i+3, 3))))
        i = i+6
    if trop & 2:
        if big:
            g.setfield(msg, i, 2, 3)
        tt, i = g.concretize(g.field(msg, i, 2)), i+2
        chk.append(('zenith delay', lambda L, i=i: field_is(g, L.ct[0, 0], g.field(msg, i, 9, True), 9, 0.004, 2.3)))
        i, n = i+9, 1
        for k in range([0, 2, 3, 3][tt]):
            chk.append(('zenith delay gradient', lambda L, i=i, k=k: field_is(g, L.ct[0, 1+k], g.field(msg, i, 7, True), 7, (0.002, 0.002, 0.001)[k])))
            i, n = i+7, n+1
        chk.append(('absent gradients are zero', lambda L, n=n: And([L.ct[0, k] == 0 for k in range(n, 4)])))
    if trop & 1:
        if big:
            g.setfield(msg, i, 1, 1)
        w = 8 if bool(g.bitat(msg, i)) else 6
        chk.append(('wet offset', lambda L, i=i: close(L.ct[1, 0], g.field(msg, i+1, 4)*0.02)))
        i = i+5
        chk.append(('one residual per grid point', lambda L: len(L.dtw) == ng))
        for j in range(ng):
            chk.append(('wet residual', lambda L, i=i, j=j, w=w: field_is(g, L.dtw[j], g.field(msg, i, w, True), w, 0.004)))
            i = i+w
    else:
        chk.append(('residuals untouched', lambda L: L.dtw == 'old'))
    use, i = netsel(g, msg, i, sl), i+len(sl)
    for q, s in enumerate(use):
        if stec and big:
            p = i+6
            if stec & 2:
                g.setfield(msg, p, 2, q % 4)
                p += 2+[14, 38, 48, 64][q % 4]
            if stec & 1:
                g.setfield(msg, p, 2, (q+1) % 4)
        if stec:
            chk.append(('slant quality', lambda L, i=i, s=s: quality_of(g, L.stec_quality[s], g.field(msg, i, 3), g.field(msg, i+3, 3))))
            i = i+6
        if stec & 2:
            st = g.concretize(g.field(msg, i, 2))
            chk.append(('polynomial coefficients', lambda L, i=i, s=s, st=st: And(coeffs(g, msg, i+2, st, L.ci[s])[0], L.stype[s] == st)))
            i = i+2+[14, 38, 48, 64][st]
        if stec & 1:
            z = g.concretize(g.field(msg, i, 2))
            i, w, scl = i+2, (4, 4, 5, 7)[z], (0.04, 0.12, 0.16, 0.24)[z]
            for j in range(ng):
                chk.append(('slant residual at each grid point', lambda L, i=i, s=s, w=w, scl=scl, j=j: field_is(g, L.dstec[s][j], g.field(msg, i, w, True), w, scl)))
                i = i+w
    L = d.lc[NET]
    L.dtw, L.dth, L.ci, L.dstec = 'old', None, 'old', 'old'
    L.flg_trop = L.flg_stec = 1
    e = g.call('cssrlib:cssr.decode_cssr_atmos', d, msg, i0)
    t = g.call('gnss:gpst2time', 2200, tow)
    g.ensure('message length', e == i)
    g.ensure('network', And(L.ng == ng, L.flg_trop == trop, L.flg_stec == stec, d.flg_net, same_time(d.time, t)))
    if trop:
        ah, aw = g.call('gnss:mapfParam', d.time, np.deg2rad(35.5))
        g.ensure('mapping function of the network latitude', And([close(L.maph[k], ah[k], 1e-9) for k in range(3)], [close(L.mapw[k], aw[k], 1e-9) for k in range(3)]))
    for nm, f in chk:
        g.ensure(nm, f(L))
    g.ensure('satellites of the network', And(nets(L, use), [same_time(L.t0[s][CT('STEC')], t) for s in use]))
    g.ensure('received parts are flagged', And(Iff(L.cstat & (1 << CT('TROP')) != 0, trop != 0), Iff(L.cstat & (1 << CT('STEC')) != 0, stec != 0)))
    if stec & 2:
        g.ensure('only selected satellites have coefficients', len(L.ci) == len(use))
    if stec & 1:
        g.ensure('only selected satellites have residuals', len(L.dstec) == len(use))


def troposphere(g, kinds):
    tr = g.choice('trop', kinds)
    atmos(g, ['G01'], tr, g.choice('stec', ([0, 2] if tr == 3 else [0]) if g.symbolic else range(4)))


@contract('C05', fns=F, n=200, tmo=150, weight=3)
def atmos_message_troposphere_one_part(g):
    troposphere(g, [0, 1, 2])


@contract('C05', fns=F, n=200, tmo=150, weight=4)
def atmos_message_troposphere_both_parts(g):
    troposphere(g, [3])


@contract('C05', fns=F, n=200, tmo=200, weight=4)
def atmos_message_ionosphere_one_satellite(g):
    atmos(g, ['E11'], g.choice('trop', [0] if g.symbolic else range(4)), g.choice('stec', range(1, 4)))


@contract('C05', fns=F, n=400, tmo=200, weight=4)
def atmos_message_ionosphere_several_satellites(g):
    lst = g.choice('lst', [['G01', 'E36']] if g.symbolic else [['G01', 'E36'], ['E02', 'J03', 'G32']])
    atmos(g, lst, g.choice('trop', [0] if g.symbolic else range(4)), g.choice('stec', [1, 2] if g.symbolic else range(4)))


@contract('C05', fns=F, n=60, tmo=200, weight=4)
def atmos_message_of_a_large_network(g):
    """many satellites and many grid points"""
    atmos(g, g.choice('lst', [FULL[20:40]] if g.symbolic else [FULL[20:40], FULL]), 3, g.choice('stec', [3] if g.symbolic else [1, 2, 3]))
