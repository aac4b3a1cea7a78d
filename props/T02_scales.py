"""T02 the satellite-system time scales and UTC are consistent labellings of one time line."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff

# epochs of the scales in days since 1970-01-01, independent of the code
EP = {'gpst': 3657, 'gst': 10825, 'bdt': 13149}
# first instants (UTC, days since 1970-01-01) at which UTC lags GPS time by n seconds
LEAP = [(4199, 1), (4564, 2), (4929, 3), (5660, 4), (6574, 5), (7305, 6), (7670, 7), (8217, 8), (8582, 9), (8947, 10),
        (9496, 11), (10043, 12), (10592, 13), (13149, 14), (14245, 15), (15522, 16), (16617, 17), (17167, 18)]


def mk(scale):
    F = ['gnss:%s2time' % scale, 'gnss:time2%s' % scale, 'gnss:epoch2time', 'gnss:gtime_t']

    def to_time(g):
        w = g.int('week', 0, 6000)
        tow = g.real('tow', 0, 1e9)
        t = g.call('gnss:%s2time' % scale, w, tow)
        g.ensure('fraction in [0,1)', And(t.sec >= 0, t.sec < 1))
        g.ensure('instant', close(t.time-EP[scale]*86400-w*604800+t.sec, tow, 1e-6, rel=False))
    to_time.__name__ = 'week_and_second_to_instant_'+scale
    contract('T02', fns=F, n=500)(to_time)

    def to_time_default(g):
        w = g.int('week', 0, 6000)
        tow = g.real('tow')
        g.assume(Or(tow < -1e9, tow > 1e9))
        t = g.call('gnss:%s2time' % scale, w, tow)
        g.ensure('out of range second is replaced by the start of the week', And(t.time == EP[scale]*86400+w*604800, t.sec == 0))
    to_time_default.__name__ = 'unusable_second_'+scale
    contract('T02', fns=F, n=200)(to_time_default)

    def back(g):
        tt = g.int('time', EP[scale]*86400, 4102444799)
        fs = g.real('fs', 0, 1, open_hi=True)
        w, tow = g.call('gnss:time2%s' % scale, g.call('gnss:gtime_t', tt, fs))
        g.ensure('second of week is within the week', And(tow >= 0, tow < 604800+1e-6))
        g.ensure('same instant', close(EP[scale]*86400+w*604800-tt+tow, fs, 1e-6, rel=False))
        t = g.call('gnss:%s2time' % scale, w, tow)
        g.ensure('round trip', close(t.time-tt+t.sec, fs, 1e-6, rel=False))
    back.__name__ = 'instant_to_week_and_back_'+scale
    contract('T02', fns=F, n=500)(back)


for s in EP:
    mk(s)

FU = ['gnss:gpst2utc', 'gnss:utc2gpst', 'gnss:timeadd', 'gnss:timediff', 'gnss:epoch2time']


def lag(days_sec):
    """seconds UTC lags GPS time at a UTC instant"""
    r = 0
    for d, n in LEAP:
        r = Ite(days_sec >= d*86400, n, r)
    return r


@contract('T02', fns=FU, n=1500, weight=3)
def utc_to_gps(g):
    tt = g.int('time', 315964800, 4102444799)
    fs = g.real('fs', 0, 1, open_hi=True)
    t = g.call('gnss:utc2gpst', g.call('gnss:gtime_t', tt, fs))
    g.ensure('offset is the number of leap seconds', close(t.time-tt-lag(tt)+t.sec, fs, 1e-9, rel=False))


@contract('T02', fns=FU, n=1500, weight=3)
def gps_to_utc(g):
    k = g.choice('seg', range(len(LEAP)+1))
    n = 0 if k == 0 else LEAP[k-1][1]
    lo = 315964800 if k == 0 else LEAP[k-1][0]*86400+n
    hi = 4102444799 if k == len(LEAP) else LEAP[k][0]*86400+n-1
    tt = g.int('time', lo, hi)
    fs = g.real('fs', 0, 1, open_hi=True)
    u = g.call('gnss:gpst2utc', g.call('gnss:gtime_t', tt, fs))
    g.ensure('offset is the number of leap seconds', close(u.time-tt+n+u.sec, fs, 1e-9, rel=False))
    b = g.call('gnss:utc2gpst', u)
    g.ensure('round trip', close(b.time-tt+b.sec, fs, 1e-9, rel=False))


@contract('T02', fns=['gnss:bdt2gpst', 'gnss:gpst2bdt', 'gnss:timeadd'], n=400)
def beidou_offset(g):
    tt = g.int('time', 10**9, 4102444799)
    fs = g.real('fs', 0, 1, open_hi=True)
    t = g.call('gnss:gtime_t', tt, fs)
    a = g.call('gnss:bdt2gpst', t)
    b = g.call('gnss:gpst2bdt', t)
    g.ensure('GPS time leads BeiDou time by 14 s', And(a.time == tt+14, close(a.sec, fs), b.time == tt-14, close(b.sec, fs)))
    g.ensure('argument unchanged', And(t.time == tt, t.sec == fs))
