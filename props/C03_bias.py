"""C03 compact SSR code and phase bias messages attach each bias to its satellite and signal."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, SIGS, ALLSIGS, MANY, FULL, selection, rsig, decoder, field_is, head_fields, same_time

F = ['cssrlib:cssr.decode_cssr_cbias', 'cssrlib:cssr.decode_cssr_pbias', 'cssrlib:cssr.decode_cssr_bias', 'cssrlib:cssr.decode_cbias_sat',
     'cssrlib:cssr.decode_pbias_sat', 'cssrlib:cssr.decode_head', 'cssrlib:cssr.decode_local_sat', 'cssrlib:cssr.set_t0']
BL = [([], SIGS), (['E11'], SIGS), (['G01', 'E36'], SIGS), (['J03', 'R07', 'G32'], SIGS), (FULL, SIGS), (MANY, ALLSIGS)]


def start(g):
    lst, sg = g.choice('lst', BL)
    d, sl = decoder(g, lst, sigs=sg)
    for L in d.lc:
        L.cbias, L.pbias, L.di = {9999: 1}, {9999: 1}, {9999: 1}
    big = len(lst) > 3
    msg, i0 = g.buf('msg', 7200 if big else 1200), g.int('i', 0, 0 if big else 200)
    dtow, udi, iod = head_fields(g, msg, i0)
    g.assume(dtow < 3600)
    return d, sl, sg, msg, i0, i0+21, d.tow0+dtow, udi, iod


@contract('C03', fns=F, n=400, tmo=120, weight=2)
def code_bias_message(g):
    d, sl, sg, msg, i0, i, tow, udi, iod = start(g)
    e = g.call('cssrlib:cssr.decode_cssr_cbias', d, msg, i0)
    t, L = g.call('gnss:gpst2time', 2200, tow), d.lc[0]
    g.ensure('exactly the listed satellites', len(L.cbias) == len(sl))
    for c, s in sl:
        g.ensure('exactly the listed signals', len(L.cbias[s]) == len(sg[c]))
        for n in sg[c]:
            g.ensure('code bias', field_is(g, L.cbias[s][rsig(c, 'C', n)], g.field(msg, i, 11, True), 11, 0.02))
            i = i+11
        g.ensure('reference time', same_time(L.t0[s][CT('CBIAS')], t))
    g.ensure('message length', e == i)
    g.ensure('bookkeeping', And(same_time(d.time, t), d.udi[CT('CBIAS')] == udi, d.iodssr_c[CT('CBIAS')] == iod, L.cstat & (1 << CT('CBIAS')) != 0))


@contract('C03', fns=F, n=400, tmo=120, weight=2)
def phase_bias_message(g):
    d, sl, sg, msg, i0, i, tow, udi, iod = start(g)
    e = g.call('cssrlib:cssr.decode_cssr_pbias', d, msg, i0)
    t, L = g.call('gnss:gpst2time', 2200, tow), d.lc[0]
    g.ensure('exactly the listed satellites', And(len(L.pbias) == len(sl), len(L.di) == len(sl)))
    for c, s in sl:
        g.ensure('exactly the listed signals', len(L.pbias[s]) == len(sg[c]))
        for n in sg[c]:
            r = rsig(c, 'L', n)
            g.ensure('phase bias', field_is(g, L.pbias[s][r], g.field(msg, i, 15, True), 15, 0.001))
            g.ensure('discontinuity indicator', L.di[s][r] == g.field(msg, i+15, 2))
            i = i+17
        g.ensure('reference time', same_time(L.t0[s][CT('PBIAS')], t))
    g.ensure('message length', e == i)
    g.ensure('bookkeeping', And(same_time(d.time, t), d.udi[CT('PBIAS')] == udi, d.iodssr_c[CT('PBIAS')] == iod, L.cstat & (1 << CT('PBIAS')) != 0))


@contract('C03', fns=F, n=600, tmo=170, weight=4, max_paths=4000)
def bias_message(g):
    d, sl, sg, msg, i0, i, tow, udi, iod = start(g)
    if len(sl) > 3:
        g.setfield(msg, i, 3, g.choice('flags', [7] if g.symbolic else [7, 6]))
    cb, pb, net = [bool(g.bitat(msg, i+k)) for k in range(3)]
    i = i+3
    inet, use = 0, sl
    g.assume(not net or len(sl) > 0)
    if net:
        inet = g.choice('inet', [1, 31] if g.symbolic else range(1, 32))
        g.setfield(msg, i, 5, inet)
        i = i+5
        sel = selection(g, msg, i, len(sl))
        use, i = [x for k, x in enumerate(sl) if sel[k]], i+len(sl)
    e = g.call('cssrlib:cssr.decode_cssr_bias', d, msg, i0)
    t, L = g.call('gnss:gpst2time', 2200, tow), d.lc[inet]
    if cb:
        g.ensure('code biases of exactly the selected satellites', len(L.cbias) == len(use))
    if pb:
        g.ensure('phase biases of exactly the selected satellites', And(len(L.pbias) == len(use), len(L.di) == len(use)))
    for c, s in use:
        for n in sg[c]:
            if cb:
                g.ensure('code bias', field_is(g, L.cbias[s][rsig(c, 'C', n)], g.field(msg, i, 11, True), 11, 0.02))
                i = i+11
            if pb:
                r = rsig(c, 'L', n)
                g.ensure('phase bias', And(field_is(g, L.pbias[s][r], g.field(msg, i, 15, True), 15, 0.001), L.di[s][r] == g.field(msg, i+15, 2)))
                i = i+17
        if cb:
            g.ensure('code bias reference time', same_time(L.t0[s][CT('CBIAS')], t))
        if pb:
            g.ensure('phase bias reference time', same_time(L.t0[s][CT('PBIAS')], t))
    g.ensure('message length', e == i)
    if net:
        g.ensure('network satellites', And(d.inet == inet, len(L.sat_n) == len(use), [a == b[1] for a, b in zip(L.sat_n, use)], L.nsat_n == len(use)))
        g.ensure('global biases untouched', And(d.lc[0].cbias == {9999: 1}, d.lc[0].pbias == {9999: 1}, d.lc[0].di == {9999: 1}))
    else:
        g.ensure('network biases untouched', And([a.cbias == {9999: 1} and a.pbias == {9999: 1} for a in d.lc[1:]]))
    g.ensure('flags', And(Iff(L.cstat & (1 << CT('CBIAS')) != 0, cb), Iff(L.cstat & (1 << CT('PBIAS')) != 0, pb), Iff(d.flg_net, net), same_time(d.time, t)))
    if cb:
        g.ensure('code bias set', And(d.udi[CT('CBIAS')] == udi, d.iodssr_c[CT('CBIAS')] == iod))
    if pb:
        g.ensure('phase bias set', And(d.udi[CT('PBIAS')] == udi, d.iodssr_c[CT('PBIAS')] == iod))
