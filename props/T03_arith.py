"""T03 arithmetic on instants: exact, normalised, and rollovers resolve to the nearest instant."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff
from props.T02_scales import lag, LEAP

F = ['gnss:timeadd', 'gnss:timediff', 'gnss:gtime_t']


def inst(g, p, lo=315964800, hi=4102444799):
    return g.call('gnss:gtime_t', g.int('t'+p, lo, hi), g.real('s'+p, 0, 1, open_hi=True))


@contract('T03', fns=F, n=1000)
def adding_seconds(g):
    t = inst(g, '')
    tt, fs = t.time, t.sec
    dt = g.real('dt', -1e7, 1e7)
    r = g.call('gnss:timeadd', t, dt)
    g.ensure('fraction in [0,1)', And(r.sec >= 0, r.sec <= 1 if not g.symbolic else r.sec < 1))
    g.ensure('moved by dt', close(r.time-tt+(r.sec-fs), dt, 1e-8, rel=False))
    g.ensure('argument unchanged', And(t.time == tt, t.sec == fs, ))
    g.ensure('difference', close(g.call('gnss:timediff', r, t), dt, 1e-8, rel=False))
    g.ensure('difference is antisymmetric', close(g.call('gnss:timediff', t, r), -dt, 1e-8, rel=False))


@contract('T03', fns=F, n=500)
def difference(g):
    a, b = inst(g, 'a'), inst(g, 'b')
    d = g.call('gnss:timediff', a, b)
    g.ensure('difference', close(d-(a.time-b.time), a.sec-b.sec, 1e-6, rel=False))
    g.ensure('no implicit change', And(a.sec >= 0, b.sec >= 0))


@contract('T03', fns=['gnss:adjtime']+F, n=1500)
def rollover(g):
    ref = inst(g, 'ref', 400000000, 4000000000)
    dt = g.choice('period', [604800.0, 86400.0, 25, 7.5])
    d = g.real('offset', -1.5*604800+1, 1.5*604800-1)
    g.assume(absv(d) < 1.5*dt-1e-3)
    k = g.call('gnss:timeadd', ref, d)
    args = [k, ref] if dt == 604800.0 and g.bool('default') else [k, ref, dt]
    r = g.call('gnss:adjtime', *args)
    m = (r.time-k.time)+(r.sec-k.sec)
    g.ensure('moved by a whole number of periods', Or(close(m, 0), close(m, dt), close(m, -dt)))
    dd = (r.time-ref.time)+(r.sec-ref.sec)
    g.ensure('nearest to the reference', absv(dd) <= dt/2+1e-6)
    g.ensure('untouched when already nearest', Implies(absv(d) < dt/2-1e-6, close(m, 0)))


@contract('T03', fns=['gnss:tod2tow', 'gnss:adjtime', 'gnss:time2gpst', 'gnss:gpst2time'], n=1500)
def time_of_day(g):
    ref = inst(g, 'ref', 400000000, 4000000000)
    tod = g.real('tod', 0, 86400, open_hi=True)
    r = g.call('gnss:tod2tow', tod, ref)
    dd = (r.time-ref.time)+(r.sec-ref.sec)
    g.ensure('nearest day', absv(dd) <= 43200+1e-5)
    x = (r.time-r.time//86400*86400)+r.sec
    e = x-tod
    g.ensure('time of day', Or(close(e, 0, 1e-5, rel=False), close(e, 86400, 1e-5, rel=False), close(e, -86400, 1e-5, rel=False)))


@contract('T03', fns=['gnss:glo2time', 'gnss:gpst2utc', 'gnss:utc2gpst', 'gnss:time2gpst', 'gnss:gpst2time'], n=1500, weight=3, max_paths=6000)
def glonass_time_of_day(g):
    # at least a day away from every leap second
    k = g.choice('seg', range(10, len(LEAP)+1))
    n = LEAP[k-1][1]
    lo = LEAP[k-1][0]*86400+2*86400
    hi = 4000000000 if k == len(LEAP) else LEAP[k][0]*86400-2*86400
    ref = inst(g, 'ref', lo, hi)
    tod = g.real('tod', 0, 86400, open_hi=True)
    r = g.call('gnss:glo2time', ref, tod)
    dd = (r.time-ref.time)+(r.sec-ref.sec)
    g.ensure('nearest day', absv(dd) <= 43200+1e-5)
    # Moscow time = UTC + 3 h = GPS time - leap + 3 h
    m = r.time-n+10800
    x = (m-m//86400*86400)+r.sec
    e = x-tod
    g.ensure('Moscow time of day', Or(close(e, 0, 1e-5, rel=False), close(e, 86400, 1e-5, rel=False), close(e, -86400, 1e-5, rel=False)))


@contract('T03', fns=['ephemeris:findeph', 'rinex:rnxdec.adjday'], n=300)
def day_boundary(g):
    from vc.api import resolve
    ref = inst(g, 'ref', 400000000, 4000000000)
    d = g.real('offset', -86400*1.4, 86400*1.4)
    t = g.call('gnss:timeadd', ref, d)
    dec = resolve('rinex:rnxdec')()
    if not hasattr(dec, 'adjday'):
        g.ensure('no such conversion', True)
        return
    r = g.call('rinex:rnxdec.adjday', dec, t, ref)
    dd = (r.time-ref.time)+(r.sec-ref.sec)
    g.ensure('nearest day', absv(dd) <= 43200+1e-6)
