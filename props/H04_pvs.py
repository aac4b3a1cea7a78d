"""H04 PPP via SouthPAN corrections and the SISNeT compressed text form."""
import math
import re
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, same_time
from .f_common import cases

M = 'cssr_pvs:cssr_pvs.'
F = [M+k for k in ('decode_cssr', 'decode_cssr_orb', 'slot2sat', 'check_validity')] + ['gnss:tod2tow', 'gnss:adjtime']


def pvs(g, day=6):
    d = resolve('cssr_pvs:cssr_pvs')()
    d.monlevel = 0
    g.lift(d, 2)
    gt = resolve('gnss:gtime_t')
    d.week, d.tow0 = 2300, 86400*day
    now = g.int('now', 0, 86399)
    d.time0 = g.call('gnss:gpst2time', 2300, d.tow0+now)
    return d, now


def sat_of(g, s):
    """satellite number of a slot (0: none)"""
    return Ite(And(s >= 1, s <= 32), s, Ite(And(s >= 38, s <= 64), 148+s-37, Ite(And(s >= 75, s <= 110), 32+s-74, Ite(
        And(s >= 120, s <= 158), 194+s-119, Ite(And(s >= 159, s <= 195), 85+s-158, 0)))))


@contract('H04', fns=F[2:3], n=300)
def slots(g):
    d = resolve('cssr_pvs:cssr_pvs')()
    s = g.int('slot', 0, 255)
    got = g.call(M+'slot2sat', d, s)
    p2s = lambda c, p: g.call('gnss:prn2sat', U(c), p)
    for c, lo, hi, o in (('GPS', 1, 32, 0), ('GLO', 38, 61, 37), ('GAL', 75, 110, 74), ('SBS', 120, 158, 0), ('BDS', 159, 195, 158)):
        if bool(And(s >= lo, s <= hi)):
            g.ensure('satellite of the slot', got == p2s(c, s-o))
    g.ensure('unused slots', Implies(Or(s == 0, And(s > 69, s < 75), And(s > 110, s < 120), s > 195, And(s > 32, s < 38)), got == 0))


FLD = (('dorb', 0, 11, -0.0625), ('dorb', 1, 11, -0.0625), ('dorb', 2, 11, -0.0625), ('dclk', None, 12, 0.03125), ('dvel', 0, 8, -2.0**-11), ('dvel', 1, 8, -2.0**-11),
       ('dvel', 2, 8, -2.0**-11), ('ddft', None, 9, 2.0**-12))


@contract('H04', fns=F, n=500, tmo=60)
def correction(g):
    day, kind, had, (sl, want) = cases(g, 40, day=[0, 3, 6], kind=['corr', 'corr', 'corr', 'even', 'slot', 'type'], had=[0, 1, 150],
                                       slot=[(1, 1), (32, 32), (75, 33), (110, 68), (40, 151)])
    d, now = pvs(g, day)
    msg = g.buf('msg', 250)
    g.setfield(msg, 4, 6, 32 if kind != 'type' else 33)
    if kind == 'slot':
        sl = g.choice('bad', [0, 35, 72, 115, 200])
    g.setfield(msg, 10, 8, sl)
    t0 = g.field(msg, 10+63+33, 13)
    g.assume(t0 < 5400)
    g.assume((t0 % 2 == 0) if kind == 'even' else (t0 % 2 == 1))
    L = d.lc[0]
    if had == 1:
        d.sat_n = [want]
        L.iode[want], L.dclk[want] = 5, 1.0
    old = [s for s in range(1, 180) if s != want][:150] if had == 150 else []
    if old:
        d.sat_n = list(old)
        for s in old:
            L.iode[s], L.dclk[s] = 5, 1.0
    g.call(M+'decode_cssr', d, msg)
    if kind != 'corr':
        g.ensure('ignored', And(len(L.iode) == had, len(L.dclk) == had, len(L.dorb) == 0, len(d.sat_n) == had))
        return
    g.ensure('listed once', d.sat_n == old+[want])
    g.ensure('issue of the navigation data', And(L.iode[want] == g.field(msg, 18, 10), len(L.iode) == len(old)+1, all(L.iode[s] == 5 and L.dclk[s] == 1 for s in old)))
    i = 28
    for nm, k, w, q in FLD:
        raw = g.field(msg, i, w, True)
        v = getattr(L, nm)[want]
        v = v if k is None else v[k]
        # the most negative value is left open
        g.ensure('correction '+nm, Or(raw == -(1 << (w-1)), And(Not(isnan(v)), close(v, raw*q, 1e-9))))
        i += w
    # the epoch with that time of day which is the nearest to the reception: also in the minutes around midnight and the end of the week
    g.ensure('time of the correction is near the reception', And(d.time.time-d.time0.time <= 43200, d.time0.time-d.time.time <= 43200))
    g.ensure('time of day of the correction', And((d.time.time-d.time0.time+now-16*t0) % 86400 == 0, d.time.sec == 0))
    g.ensure('validity starts at reception', And(same_time(L.t0[want][CT('ORBIT')], d.time0), same_time(L.t0[want][CT('CLOCK')], d.time0)))
    g.ensure('corrections available', And(d.iodssr_c[CT('ORBIT')] == d.iodssr, d.iodssr_c[CT('CLOCK')] == d.iodssr, L.cstat & (1 << CT('ORBIT')) != 0,
                                          L.cstat & (1 << CT('CLOCK')) != 0))


@contract('H04', fns=F[3:4], n=300)
def expiry(g):
    d, _ = pvs(g)
    L = d.lc[0]
    gt = resolve('gnss:gtime_t')
    age = {}
    d.sat_n = [5, 40]
    for s in d.sat_n:
        age[s] = g.int('age%d' % s, 0, 400)
        t = gt(d.time0.time-age[s], d.time0.sec)
        L.t0[s] = {CT('CLOCK'): t, CT('ORBIT'): t}
        L.iode[s], L.dclk[s], L.dorb[s] = 7, 1.5, g.array([1.0, 2.0, 3.0])
    g.call(M+'check_validity', d, d.time0)
    for s in d.sat_n:
        g.ensure('expired exactly after 120 s', Iff(L.iode[s] == -1, age[s] > 120))
        g.ensure('fresh corrections kept', Implies(age[s] <= 120, And(L.dclk[s] == 1.5, L.dorb[s][0] == 1.0, L.iode[s] == 7)))
        g.ensure('expired corrections are not applied', Implies(age[s] > 120, And(L.dclk[s] == 0, L.dorb[s][0] == 0, L.dorb[s][1] == 0, L.dorb[s][2] == 0)))


@contract('H04', fns=['cssr_pvs:decode_sinca_line'], n=600, prove=False, why='text')
def compressed_text(g):
    """repetition marks expand to the repeated hexadecimal digit"""
    n = g.int('len', 1, 32)
    digs = ''.join('%X' % g.int('d%d' % k, 0, 15) for k in range(n))
    reps = [g.choice('r%d' % k, [1, 1, 1, 2, 7, 15, 16, 40, 200]) for k in range(n)]
    full = ''.join(c*r for c, r in zip(digs, reps))
    if len(full) % 2:
        reps[-1] += 1
        full += digs[-1]
    txt = ''.join(c if r == 1 else (c+'|%X' % r if r < 16 and g.choice('w%d' % k, [0, 1]) else c+'/%02X' % r) for k, (c, r) in enumerate(zip(digs, reps)))
    # adjacent equal digits merge in no way: every mark follows one digit
    w, tow = g.int('week', 1000, 3000), g.int('tow', 0, 604799)
    t, sb = g.call('cssr_pvs:decode_sinca_line', '*MSG,%d,%d,%s*AB' % (w, tow, txt))
    t0 = g.call('gnss:gpst2time', w, tow)
    g.ensure('time', t.time == t0.time)
    g.ensure('message', sb.hex().upper() == full)
    g.ensure('other lines are no message', g.call('cssr_pvs:decode_sinca_line', '*OK,'+txt) is None)
