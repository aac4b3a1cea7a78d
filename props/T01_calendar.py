"""T01 calendar dates and continuous time are the same instants."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff

F = ['gnss:epoch2time', 'gnss:time2epoch', 'gnss:time2doy', 'gnss:timediff', 'gnss:timeadd', 'gnss:gtime_t']
MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def days_civil(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian, Hinnant's algorithm)"""
    y2 = Ite(m <= 2, y-1, y)
    era = y2//400
    yoe = y2-era*400
    mp = Ite(m > 2, m-3, m+9)
    doy = (153*mp+2)//5+d-1
    doe = yoe*365+yoe//4-yoe//100+doy
    return era*146097+doe-719468


def leap(y):
    return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


def date(g, p='', ylo=1970, yhi=2099):
    y = g.int(p+'year', ylo, yhi)
    m = g.choice(p+'mon', range(1, 13))
    d = g.int(p+'day', 1, 31)
    g.assume(d <= Ite(And(leap(y), m == 2), 29, MD[m-1]))
    return y, m, d


@contract('T01', fns=F, n=1500, weight=2)
def epoch2time_is_the_civil_instant(g):
    y, m, d = date(g)
    h, mi = g.int('h', 0, 23), g.int('min', 0, 59)
    s = g.real('s', 0, 60, open_hi=True)
    t = g.call('gnss:epoch2time', [y, m, d, h, mi, s])
    g.ensure('whole seconds of the instant', And(t.sec >= 0, t.sec < 1))
    ref = days_civil(y, m, d)*86400+h*3600+mi*60
    g.ensure('instant equals the civil date', close(t.time-ref+t.sec, s, 1e-9))


# months of the four-year cycle 1970-1973 (1972 is the leap year of the cycle)
_ML = [(y, m, 29 if (m == 2 and y == 1972) else MD[m-1]) for y in range(1970, 1974) for m in range(1, 13)]
_CUM = [sum(x[2] for x in _ML[:k]) for k in range(49)]


def instant(g):
    """any instant of 1970-2099 together with its civil date"""
    k = g.choice('month', range(48))
    cyc = g.int('cycle', 0, 32)
    d = g.int('day', 1, _ML[k][2])
    y = _ML[k][0]+4*cyc
    g.assume(y <= 2099)
    m = _ML[k][1]
    sod = g.int('sod', 0, 86399)
    t = (cyc*1461+_CUM[k]+d-1)*86400+sod
    return t, y, m, d, sod


@contract('T01', fns=F, n=1500, weight=3)
def time2epoch_names_that_instant(g):
    tt, y, m, d, sod = instant(g)
    fs = g.real('fs', 0, 1, open_hi=True)
    ep = g.call('gnss:time2epoch', g.call('gnss:gtime_t', tt, fs))
    g.ensure('date', And(ep[0] == y, ep[1] == m, ep[2] == d))
    g.ensure('time of day', And(ep[3] == sod//3600, ep[4] == sod % 3600//60, close(ep[5], sod % 60+fs, 1e-9), ep[5] >= 0, ep[5] < 60+1e-9))


@contract('T01', fns=F, n=800, weight=2)
def epoch_roundtrip(g):
    tt, y, m, d, sod = instant(g)
    ep = g.call('gnss:time2epoch', g.call('gnss:gtime_t', tt, 0.0))
    t = g.call('gnss:epoch2time', ep)
    g.ensure('round trip', And(t.time == tt, close(t.sec, 0)))
    g.ensure('civil calendar agrees', days_civil(y, m, d)*86400+sod == tt)


@contract('T01', fns=F, n=500)
def epoch2time_outside_the_calendar_is_refused(g):
    y = g.int('year', 0, 4000)
    m = g.int('mon', -5, 20)
    d = g.int('day', 1, 28)
    g.assume(Or(y < 1970, y > 2099, m < 1, m > 12))
    t = g.call('gnss:epoch2time', [y, m, d, 0, 0, 0.0])
    g.ensure('null time', And(t.time == 0, t.sec == 0))


@contract('T01', fns=F, n=800, weight=2)
def day_of_year(g):
    tt, y, m, d, sod = instant(g)
    fs = g.real('fs', 0, 1, open_hi=True)
    doy = g.call('gnss:time2doy', g.call('gnss:gtime_t', tt, fs))
    ref = days_civil(y, m, d)-days_civil(y, 1, 1)+1
    g.ensure('day of year counts from 1 January', close((doy-ref)*86400, sod+fs, 1e-6))


@contract('T01', fns=['gnss:str2time', 'gnss:time2str'], prove=False, why='string formatting/parsing is outside the verified subset', n=600)
def text_form(g):
    y, m, d = date(g)
    h, mi, s = g.int('h', 0, 23), g.int('min', 0, 59), g.int('s', 0, 59)
    pad = g.int('pad', 0, 6)
    txt = 'x'*pad + '%4d %2d %2d %2d %2d %9.6f' % (y, m, d, h, mi, s) + ' trailing'
    t = g.call('gnss:str2time', txt, pad, 27)
    g.ensure('parsed instant', And(t.time == days_civil(y, m, d)*86400+h*3600+mi*60+s, close(t.sec, 0)))
    yy = '%2d %2d %2d %2d %2d %5.2f' % (y % 100, m, d, h, mi, s)
    t2 = g.call('gnss:str2time', yy, 0, 20)
    y4 = y % 100 + (2000 if y % 100 < 80 else 1900)
    g.ensure('two digit year', Implies(d <= 28, lambda: t2.time == days_civil(y4, m, d)*86400+h*3600+mi*60+s))
    out = g.call('gnss:time2str', t)
    g.ensure('printed form', out == '%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, h, mi, s))
    g.ensure('too short', g.call('gnss:str2time', '2020 1 1', 0, 8) == -1)


@contract('T01', fns=F, n=500)
def ordering(g):
    a = g.call('gnss:gtime_t', g.int('t1', -10**9, 10**10), g.real('s1', 0, 1, open_hi=True))
    b = g.call('gnss:gtime_t', g.int('t2', -10**9, 10**10), g.real('s2', 0, 1, open_hi=True))
    dt = g.call('gnss:timediff', a, b)
    r = g.call('gnss:gtime_t.__gt__', a, b)
    q = And(b.time == a.time, b.sec == a.sec)
    g.ensure('later instant compares greater', Iff(r, Or(a.time > b.time, And(a.time == b.time, a.sec > b.sec))))
    g.ensure('agrees with the difference', Implies(r, dt >= -1e-6))
