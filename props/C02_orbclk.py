"""C02 compact SSR orbit, clock and combined messages give every listed satellite its own correction."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, LISTS, FULL, selection, decoder, field_is, isn, head_fields, same_time

F = ['cssrlib:cssr.decode_cssr_orb', 'cssrlib:cssr.decode_cssr_clk', 'cssrlib:cssr.decode_cssr_comb', 'cssrlib:cssr.decode_orb_sat',
     'cssrlib:cssr.decode_clk_sat', 'cssrlib:cssr.decode_head', 'cssrlib:cssr.sval', 'cssrlib:cssr.isset', 'cssrlib:cssr.set_t0']


def orb_ok(g, msg, i, sys, iode, dorb, sgn=1):
    n = 10 if sys == 'GAL' else 8
    ok = [iode == g.field(msg, i, n)]
    i = i+n
    for k, (w, s) in enumerate(((15, 0.0016), (13, 0.0064), (13, 0.0064))):
        ok.append(field_is(g, dorb[k], g.field(msg, i, w, True), w, sgn*s))
        i = i+w
    return And(ok), i


def start(g, lst):
    d, sl = decoder(g, lst)
    d.lc[0].dorb, d.lc[0].iode, d.lc[0].dclk = {9999: 1}, {9999: 1}, {9999: 1}
    msg, i0 = g.buf('msg', 7000 if len(lst) > 9 else 1200), g.int('i', 0, 200 if len(lst) < 9 else 0)
    dtow, udi, iod = head_fields(g, msg, i0)
    g.assume(dtow < 3600)
    return d, sl, msg, i0, i0+21, d.tow0+dtow, udi, iod


def common(g, d, kind, tow, udi, inet=0):
    t = g.call('gnss:gpst2time', 2200, tow)
    g.ensure('epoch of the message', same_time(d.time, t))
    g.ensure('update interval', d.udi[CT(kind)] == udi)
    g.ensure('reception flag', d.lc[inet].cstat & (1 << CT(kind)) != 0)
    return t


@contract('C02', fns=F, n=400, tmo=100, weight=2)
def orbit_message(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, g.choice('lst', LISTS+[FULL]))
    e = g.call('cssrlib:cssr.decode_cssr_orb', d, msg, i0)
    t = common(g, d, 'ORBIT', tow, udi)
    L = d.lc[0]
    g.ensure('exactly the listed satellites', And(len(L.dorb) == len(sl), len(L.iode) == len(sl)))
    for c, s in sl:
        ok, i = orb_ok(g, msg, i, c, L.iode[s], L.dorb[s])
        g.ensure('issue of data and radial, along, cross', ok)
        g.ensure('reference time', same_time(L.t0[s][CT('ORBIT')], t))
    g.ensure('message length', e == i)
    g.ensure('issue of the correction set', d.iodssr_c[CT('ORBIT')] == iod)
    g.ensure('not a network message', Not(d.flg_net))


@contract('C02', fns=F, n=400, tmo=100, weight=2)
def clock_message(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, g.choice('lst', LISTS+[FULL]))
    e = g.call('cssrlib:cssr.decode_cssr_clk', d, msg, i0)
    t = common(g, d, 'CLOCK', tow, udi)
    L = d.lc[0]
    g.ensure('exactly the listed satellites', len(L.dclk) == len(sl))
    for c, s in sl:
        g.ensure('clock correction', field_is(g, L.dclk[s], g.field(msg, i, 15, True), 15, 0.0016))
        g.ensure('reference time', same_time(L.t0[s][CT('CLOCK')], t))
        i = i+15
    g.ensure('message length', e == i)
    g.ensure('issue of the correction set', d.iodssr_c[CT('CLOCK')] == iod)


@contract('C02', fns=F, n=100)
def clock_needs_a_mask(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, ['G01', 'E36'])
    d.lc[0].cstat = 0
    e = g.call('cssrlib:cssr.decode_cssr_clk', d, msg, i0)
    g.ensure('refused before any mask', And(e == -1, d.lc[0].dclk == {9999: 1}))


@contract('C02', fns=F, n=500, tmo=150, weight=4, max_paths=4000)
def combined_message(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, g.choice('lst', LISTS+[FULL]))
    if len(sl) > 9:
        g.setfield(msg, i, 3, g.choice('flags', [7, 6]))
    orb, clk, net = [g.bitat(msg, i+k) for k in range(3)]
    i = i+3
    g.assume(iod == d.iodssr)
    ns = len(sl)
    inet, sel = 0, [True]*ns
    g.assume(Or(Not(net), ns > 0))
    if bool(net):
        inet = g.choice('inet', [1, 31] if g.symbolic else range(1, 32))
        g.setfield(msg, i, 5, inet)
        i = i+5
        sel = selection(g, msg, i, ns)
        i = i+ns
    orb, clk, net = bool(orb), bool(clk), bool(net)
    e = g.call('cssrlib:cssr.decode_cssr_comb', d, msg, i0)
    L = d.lc[inet]
    t = g.call('gnss:gpst2time', 2200, tow)
    use = [x for k, x in enumerate(sl) if sel[k]]
    g.ensure('epoch of the message', same_time(d.time, t))
    g.ensure('network flag', Iff(d.flg_net, net))
    if orb:
        g.ensure('orbits of exactly the selected satellites', And(len(L.dorb) == len(use), len(L.iode) == len(use), d.udi[CT('ORBIT')] == udi, L.cstat & (1 << CT('ORBIT')) != 0))
    if clk:
        g.ensure('clocks of exactly the selected satellites', And(len(L.dclk) == len(use), d.udi[CT('CLOCK')] == udi, L.cstat & (1 << CT('CLOCK')) != 0))
    for c, s in use:
        if orb:
            ok, i = orb_ok(g, msg, i, c, L.iode[s], L.dorb[s])
            g.ensure('issue of data and radial, along, cross', ok)
            g.ensure('orbit reference time', same_time(L.t0[s][CT('ORBIT')], t))
        if clk:
            g.ensure('clock correction', field_is(g, L.dclk[s], g.field(msg, i, 15, True), 15, 0.0016))
            g.ensure('clock reference time', same_time(L.t0[s][CT('CLOCK')], t))
            i = i+15
    g.ensure('message length', e == i)
    if inet or not orb:
        g.ensure('global orbits untouched', d.lc[0].dorb == {9999: 1})
    if inet or not clk:
        g.ensure('global clocks untouched', d.lc[0].dclk == {9999: 1})


@contract('C02', fns=F, n=200)
def combined_of_another_mask(g):
    d, sl, msg, i0, i, tow, udi, iod = start(g, ['G01', 'E36'])
    g.assume(iod != d.iodssr)
    e = g.call('cssrlib:cssr.decode_cssr_comb', d, msg, i0)
    g.ensure('refused, corrections kept', And(e == -1, d.lc[0].dorb == {9999: 1}, d.lc[0].dclk == {9999: 1}))
