"""E01 the broadcast ephemeris used is the right one for satellite, time, issue and message type."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff, resolve

F = ['ephemeris:findeph']
LIM = {'G': 7201, 'E': 14400, 'C': 7201, 'J': 7201, 'I': 7201, 'R': 1800, 'S': 360}
LAB = {'G': 'G05', 'E': 'E12', 'C': 'C33', 'J': 'J03', 'I': 'I02', 'R': 'R09', 'S': 'S22'}


def build(g, n, labels):
    T, Eph = resolve('gnss:gtime_t'), resolve('gnss:Eph')
    lab = g.choice('sys', labels)
    sat = resolve('gnss:id2sat')(LAB[lab])
    t0 = g.int('t', 10**9, 2*10**9)
    f = g.real('ts', 0, 1, open_hi=True)
    nav, ages = [], []
    for k in range(n):
        e = Eph()
        e.sat = sat+g.int('other%d' % k, -1, 1)
        d = g.int('age%d' % k, -15000, 15000)
        e.toe = T(t0-d, 0.0)
        e.iode = g.int('iode%d' % k, 0, 1023)
        e.mode = g.int('mode%d' % k, 0, 3)
        nav.append(e)
        ages.append(absv(d+f))
    return nav, ages, T(t0, f), sat, LIM[lab]


def which(nav, r):
    for k, e in enumerate(nav):
        if r is e:
            return k
    return None


def without_issue(labels):
    def f(g):
        nav, ages, t, sat, lim = build(g, g.choice('n', [0, 1, 2, 3]), labels)
        m = g.int('mode', 0, 3)
        r = g.call('ephemeris:findeph', nav, t, sat, -1, m)
        ok = [And(e.sat == sat, e.mode == m, a <= lim) for e, a in zip(nav, ages)]
        k = which(nav, r)
        if r is None:
            g.ensure('none only when no ephemeris qualifies', Not(Or(ok)))
        else:
            g.ensure('an element of the list', k is not None)
            g.ensure('satellite, message type and validity', ok[k])
            g.ensure('nearest in time', And([Implies(ok[j], ages[k] <= ages[j]) for j in range(len(nav))]))
    return f


def with_issue(labels):
    def f(g):
        nav, ages, t, sat, lim = build(g, g.choice('n', [1, 2, 3]), labels)
        m, iod = g.int('mode', 0, 3), g.int('iod', 0, 1023)
        r = g.call('ephemeris:findeph', nav, t, sat, iod, m)
        ok = [And(e.sat == sat, e.mode == m, a <= lim, e.iode == iod) for e, a in zip(nav, ages)]
        k = which(nav, r)
        if r is None:
            g.ensure('none only when no ephemeris has that issue', Not(Or(ok)))
        else:
            g.ensure('an element of the list', k is not None)
            g.ensure('satellite, issue, message type and validity', ok[k])
    return f


for nm, labels in (('gps_galileo', ['G', 'E']), ('beidou_qzss', ['C', 'J']), ('navic_glonass', ['I', 'R']), ('sbas', ['S'])):
    contract('E01', name='nearest_'+nm, fns=F, n=600, tmo=100)(without_issue(labels))
    contract('E01', name='issue_'+nm, fns=F, n=600, tmo=100)(with_issue(labels))


@contract('E01', fns=F, n=400)
def default_message_type(g):
    nav, ages, t, sat, lim = build(g, 2, ['G', 'R'])
    r = g.call('ephemeris:findeph', nav, t, sat)
    ok = [And(e.sat == sat, e.mode == 0, a <= lim) for e, a in zip(nav, ages)]
    g.ensure('legacy message by default', Iff(r is None, Not(Or(ok))))
    if r is not None:
        g.ensure('qualifies', ok[which(nav, r)])


@contract('E01', fns=F, n=200, tmo=100)
def long_list(g):
    """days of ephemerides of all satellites: position in the list does not matter"""
    nav, ages, t, sat, lim = build(g, 2, ['G', 'R'])
    Eph, T = resolve('gnss:Eph'), resolve('gnss:gtime_t')
    m, iod = g.int('mode', 0, 3), g.choice('issue', [-1, 77])
    rest = []
    for k in range(40):
        e = Eph()
        e.sat, e.toe, e.iode, e.mode = sat+(k % 5-2 or 3), T(t.time-100*k, 0.0), 77, k % 4
        rest.append(e)
    p = g.choice('place', [(0, 40), (20, 21), (40, 40), (13, 39)])
    lst = rest[:p[0]]+[nav[0]]+rest[p[0]:p[1]]+[nav[1]]+rest[p[1]:]
    r = g.call('ephemeris:findeph', lst, t, sat, iod, m)
    ok = [And(e.sat == sat, e.mode == m, a <= lim, Or(iod < 0, e.iode == iod)) for e, a in zip(nav, ages)]
    if r is None:
        g.ensure('none only when no ephemeris qualifies', Not(Or(ok)))
    else:
        k = which(nav, r)
        g.ensure('an ephemeris of the satellite', k is not None)
        if k is not None:
            g.ensure('qualifies', ok[k])
            if iod < 0:
                g.ensure('nearest in time', And([Implies(ok[j], ages[k] <= ages[j]) for j in (0, 1)]))


@contract('E01', fns=['ephemeris:dtadjust'], n=400)
def week_rollover(g):
    T = resolve('gnss:gtime_t')
    n, k, f = g.int('t', 10**9, 2*10**9), g.int('d', -1200000, 1200000), g.real('f', 0, 1, open_hi=True)
    r = g.call('ephemeris:dtadjust', T(n, f), T(n-k, 0.0))
    d = k+f
    g.ensure('difference modulo one week', close(r, Ite(d > 604800, d-604800, Ite(d < -604800, d+604800, d))))
