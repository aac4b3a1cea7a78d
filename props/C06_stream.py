"""C06 a stream of compact SSR messages is decoded message by message, in order, with the epoch of each."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, same, Iff, resolve
from .cssr_common import U, CT, decoder, head_fields, same_time, SIGS, rsig

F = ['cssrlib:cssr.decode_cssr', 'cssrlib:cssr.decode_head', 'cssrlib:cssr.chk_stat', 'cssrlib:cssr.check_validity', 'cssrlib:cssr.decode_cssr_sinfo']
KIND = {2: ('orb', 1), 3: ('clk', 2), 4: ('cbias', 3), 5: ('pbias', 4), 7: ('ura', 7)}


def length(sub, sl):
    n = {2: sum((10 if c == 'GAL' else 8)+41 for c, s in sl), 3: 15*len(sl), 4: sum(11*len(SIGS[c]) for c, s in sl),
         5: sum(17*len(SIGS[c]) for c, s in sl), 7: 6*len(sl)}[sub]
    return 16+21+n


def blank(d):
    L = d.lc[0]
    L.dorb, L.iode, L.dclk, L.cbias, L.pbias, L.di, L.ura = {}, {}, {}, {}, {}, {}, {}


def equal(a, b):
    if isinstance(a, dict):
        return And(len(a) == len(b), [equal(a[k], b[k]) for k in a])
    if hasattr(a, '__len__'):
        return And(len(a) == len(b), [equal(x, y) for x, y in zip(a, b)])
    return same(a, b)


@contract('C06', fns=F, n=400, tmo=150, weight=3)
def sequence_of_messages(g):
    seq = g.choice('seq', [[3], [2, 3], [4, 7], [5], [3, 5, 3], [7, 2]])
    lst = ['G01', 'E36']
    d, sl = decoder(g, lst)
    t, _ = decoder2(g, lst, d.iodssr)
    blank(d)
    blank(t)
    msg = g.buf('msg', 1400)
    i0 = i = g.int('i', 0, 100)
    for s in seq:
        g.setfield(msg, i, 12, 4073)
        g.setfield(msg, i+12, 4, s)
        g.assume(g.field(msg, i+16, 12) < 3600)
        if s == 7:
            g.setfield(msg, i+33, 4, d.iodssr)
        i = i+length(s, sl)
    g.assume(g.field(msg, i, 12) != 4073)
    r = g.call('cssrlib:cssr.decode_cssr', d, msg, i0)
    g.ensure('stops at the first foreign message', r == -1)
    j, last = i0, {}
    for s in seq:
        nm, ct = KIND[s]
        e = g.call('cssrlib:cssr.decode_cssr_'+nm, t, msg, j+16)
        g.ensure('each message starts where the previous one ended', e == j+length(s, sl))
        j = j+length(s, sl)
    for a in ('dorb', 'iode', 'dclk', 'cbias', 'pbias', 'di', 'ura'):
        g.ensure('same corrections as the messages alone: '+a, equal(getattr(d.lc[0], a), getattr(t.lc[0], a)))
    g.ensure('same state', And(d.lc[0].cstat == t.lc[0].cstat, same_time(d.time, t.time), d.tow == t.tow, d.subtype == seq[-1]))


def decoder2(g, lst, iod):
    """twin decoder in the same state"""
    class H:
        symbolic = g.symbolic
        lift = staticmethod(g.lift)
        int = staticmethod(lambda *a: iod)
    return decoder(H, lst)


@contract('C06', fns=F, n=200)
def foreign_message(g):
    d, sl = decoder(g, ['G01'])
    msg, i = g.buf('msg', 400), g.int('i', 0, 100)
    g.assume(g.field(msg, i, 12) != 4073)
    s0, t0 = d.subtype, d.tow
    g.ensure('refused', g.call('cssrlib:cssr.decode_cssr', d, msg, i) == -1)
    g.ensure('state kept', And(d.subtype == s0, d.tow == t0, d.lc[0].cstat == 1))


@contract('C06', fns=F, n=300)
def stale_message_stops_the_stream(g):
    d, sl = decoder(g, ['G01', 'E36'])
    blank(d)
    msg, i = g.buf('msg', 600), g.int('i', 0, 100)
    s = g.choice('s', [7, 8, 9, 11, 12])
    g.setfield(msg, i, 12, 4073)
    g.setfield(msg, i+12, 4, s)
    g.assume(g.field(msg, i+33, 4) != d.iodssr)
    g.ensure('decoding stops', g.call('cssrlib:cssr.decode_cssr', d, msg, i) == 0)
    g.ensure('no correction stored', And(len(d.lc[0].ura) == 0, len(d.lc[0].dorb) == 0, len(d.lc[0].dclk) == 0, d.lc[0].cstat == 1))


@contract('C06', fns=F, n=400)
def epoch_of_a_message(g):
    d, sl = decoder(g, ['G01'])
    msg, i = g.buf('msg', 200), g.int('i', 0, 60)
    d.week = g.int('week', 0, 4000)
    hour = g.int('hour', 0, 167)
    d.tow0 = hour*3600
    dt, udi, iod = head_fields(g, msg, i)
    g.assume(dt < 3600)
    h, e = g.call('cssrlib:cssr.decode_head', d, msg, i)
    t = g.call('gnss:gpst2time', d.week, hour*3600+dt)
    g.ensure('offset within the reference hour', And(e == i+21, d.tow == hour*3600+dt, same_time(d.time, t)))
    g.ensure('header fields', And(h['udi'] == udi, h['iodssr'] == iod, h['mi'] == g.field(msg, i+16, 1)))


@contract('C06', fns=F, n=400)
def reference_hour(g):
    """a mask carries the time of week and sets the hour the following offsets refer to"""
    d, sl = decoder(g, ['G01'])
    m1, m2, i = g.buf('mask', 200), g.buf('next', 200), g.int('i', 0, 60)
    d.week = g.int('week', 0, 4000)
    d.tow0, d.tow = g.int('former hour', 0, 167)*3600, g.int('former tow', 0, 604799)
    tow = g.field(m1, i, 20)
    g.assume(tow < 604800)
    h, e = g.call('cssrlib:cssr.decode_head', d, m1, i, resolve('cssrlib:sCSSR').MASK)
    g.ensure('time of week of the mask', And(e == i+29, d.tow == tow, same_time(d.time, g.call('gnss:gpst2time', d.week, tow))))
    g.ensure('header of the mask', And(h['iodssr'] == g.field(m1, i+25, 4), h['mi'] == g.field(m1, i+24, 1)))
    dt = g.field(m2, i, 12)
    g.assume(dt < 3600)
    g.call('cssrlib:cssr.decode_head', d, m2, i)
    t = tow//3600*3600+dt
    g.ensure('offset to the hour of the mask', And(d.tow == t, same_time(d.time, g.call('gnss:gpst2time', d.week, t))))


@contract('C06', fns=F, n=500)
def ready_for_positioning(g):
    d = resolve('cssrlib:cssr')()
    n = g.choice('net', [0, 1, 5])
    d.inet_ref = n
    d.local_pbias = g.choice('lp', [False, True])
    a = g.int('global', 0, 65535)
    b = g.int('local', 0, 65535) if n else a
    d.lc[0].cstat, d.lc[n].cstat = a, b
    bit = lambda x, k: (x//(1 << CT(k))) % 2 == 1
    r = g.call('cssrlib:cssr.chk_stat', d)
    want = And([bit(a, k) for k in ('MASK', 'ORBIT', 'CLOCK', 'CBIAS')], [bit(b, k) for k in ('STEC', 'TROP')], Or(not d.local_pbias, bit(b, 'PBIAS')))
    g.ensure('exactly when every needed correction has been received', Iff(r, want))


@contract('C06', fns=F, n=400)
def expiry_of_corrections(g):
    d, sl = decoder(g, g.choice('lst', [['G01', 'E36'], ['C30']]))
    T = resolve('gnss:gtime_t')
    now = T(g.int('now', 10**9, 2*10**9), g.real('ns', 0, 1, open_hi=True))
    L = d.lc[0]
    L.dclk, L.iode, L.dorb = {}, {}, {}
    val, ages = {}, {}
    for c, s in sl:
        tc = T(g.int('tc%d' % s, 10**9, 2*10**9), g.real('fc%d' % s, 0, 1, open_hi=True))
        to = T(g.int('to%d' % s, 10**9, 2*10**9), g.real('fo%d' % s, 0, 1, open_hi=True))
        L.t0[s] = {CT('CLOCK'): tc, CT('ORBIT'): to}
        val[s] = (g.real('c%d' % s, 1, 9), g.int('iode%d' % s, 0, 255), g.array([g.real('x%d' % s, 1, 9), 1.0, 2.0]))
        L.dclk[s], L.iode[s], L.dorb[s] = val[s]
        ages[s] = ((now.time-tc.time)+(now.sec-tc.sec), (now.time-to.time)+(now.sec-to.sec))
    g.call('cssrlib:cssr.check_validity', d, now)
    for c, s in sl:
        v, (ac, ao) = val[s], ages[s]
        g.assume(And(Or(ac > 30.001, ac < 29.999), Or(ao > 120.001, ao < 119.999)))
        g.ensure('clock older than 30 s is dropped, a fresh one kept', Ite(ac > 30, L.dclk[s] == 0, L.dclk[s] == v[0]))
        g.ensure('orbit older than 120 s is dropped, a fresh one kept', And(Ite(ao > 120, L.iode[s] == -1, L.iode[s] == v[1]), Ite(ao > 120, L.dorb[s][0] == 0, L.dorb[s][0] == v[2][0])))


@contract('C06', fns=F, n=200)
def service_information(g):
    d = resolve('cssrlib:cssr')()
    d.sinfo = g.buf('old', 160*8)
    msg, i = g.buf('msg', 500), g.int('i', 0, 60)
    cnt, n = g.concretize(g.field(msg, i+1, 3)), g.concretize(g.field(msg, i+4, 2))+1
    e = g.call('cssrlib:cssr.decode_cssr_sinfo', d, msg, i)
    g.ensure('length', e == i+6+40*n)
    for k in range(n):
        g.ensure('each 40 bit block in its place', g.field(d.sinfo, n*40*cnt+40*k, 40) == g.field(msg, i+6+40*k, 40))


SUB = {1: 'mask', 2: 'orb', 3: 'clk', 4: 'cbias', 5: 'pbias', 6: 'bias', 7: 'ura', 8: 'stec', 9: 'grid', 10: 'sinfo', 11: 'comb', 12: 'atmos'}


@contract('C06', fns=F[:1], n=200, merging=False)
def dispatch(g):
    """every kind of message reaches its decoder, and decoding goes on where that ended"""
    d = resolve('cssrlib:cssr')()
    d.monlevel = 0
    msg = g.zbuf('msg', 600)
    a, b = g.choice('a', list(SUB)), g.choice('b', list(SUB))
    stop = g.choice('stop', [0, -1, None])
    g.setfield(msg, 5, 12, 4073)
    g.setfield(msg, 17, 4, a)
    g.setfield(msg, 100, 12, 4073)
    g.setfield(msg, 112, 4, b)
    g.setfield(msg, 200, 12, 3000)
    log = []
    from contextlib import ExitStack
    with ExitStack() as es:
        for k, nm in SUB.items():
            def f(self, m, i, k=k):
                log.append((k, self.subtype, i, m is msg))
                return 100 if len(log) == 1 else 200 if stop is None else stop
            es.enter_context(g.stub('cssrlib:cssr.decode_cssr_'+nm, f))
        r = g.call('cssrlib:cssr.decode_cssr', d, msg, 5)
    g.ensure('decoders of the messages', log == [(a, a, 21, True), (b, b, 116, True)])
    g.ensure('end of the stream', r == (-1 if stop is None else 0))
