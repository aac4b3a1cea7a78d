"""S01 satellite numbering is a bijection between (constellation, PRN), internal number and printed label."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff, resolve

# constellation: first PRN, last PRN that a satellite number can be reserved for, letter, label offset
TAB = [('GPS', 1, 32, 'G', 0), ('GAL', 1, 36, 'E', 0), ('QZS', 193, 209, 'J', 192), ('BDS', 1, 63, 'C', 0),
       ('GLO', 1, 32, 'R', 0), ('SBS', 120, 158, 'S', 100), ('IRN', 1, 14, 'I', 0)]
MAXSAT = sum(b-a+1 for _, a, b, _, _ in TAB)
F = ['gnss:prn2sat', 'gnss:sat2prn', 'gnss:uGNSS']


def gn(s):
    return getattr(resolve('gnss:uGNSS'), s)


@contract('S01', fns=F, n=400)
def prn_to_number_and_back(g):
    s, lo, hi, _, _ = g.choice('sys', TAB)
    prn = g.int('prn', lo, hi)
    sat = g.call('gnss:prn2sat', gn(s), prn)
    g.ensure('in range', And(sat >= 1, sat <= MAXSAT))
    s2, p2 = g.call('gnss:sat2prn', sat)
    g.ensure('constellation', s2 == gn(s))
    g.ensure('prn', p2 == prn)


@contract('S01', fns=F, n=400)
def number_to_prn_and_back(g):
    sat = g.int('sat', 1, MAXSAT)
    s, p = g.call('gnss:sat2prn', sat)
    lo, hi = [(a, b) for n, a, b, _, _ in TAB if gn(n) == s][0]
    g.ensure('prn in the range of its constellation', And(p >= lo, p <= hi))
    g.ensure('round trip', g.call('gnss:prn2sat', resolve('gnss:uGNSS')(int(s)), p) == sat)


@contract('S01', fns=F, n=200)
def distinct_satellites_have_distinct_numbers(g):
    s1, l1, h1, _, _ = g.choice('sys1', TAB)
    s2, l2, h2, _, _ = g.choice('sys2', TAB)
    p1, p2 = g.int('prn1', l1, h1), g.int('prn2', l2, h2)
    a, b = g.call('gnss:prn2sat', gn(s1), p1), g.call('gnss:prn2sat', gn(s2), p2)
    if s1 == s2:
        g.ensure('numbers equal only for equal prn', Implies(a == b, p1 == p2))
    else:
        g.ensure('constellations do not overlap', a != b)


@contract('S01', fns=F, n=100)
def outside_the_numbering(g):
    sat = g.int('sat', MAXSAT+1, MAXSAT+2000)
    s, p = g.call('gnss:sat2prn', sat)
    g.ensure('no satellite', And(s == -1, p == 0))
    g.ensure('unknown constellation', g.call('gnss:prn2sat', gn('NONE'), g.int('prn', 1, 200)) == 0)


@contract('S01', fns=F+['gnss:sat2id', 'gnss:id2sat', 'gnss:char2sys'], n=60, max_paths=4000, weight=2)
def printed_label(g):
    s, lo, hi, ch, off = g.choice('sys', TAB)
    prn = g.choice('prn', range(lo, hi+1))
    sat = g.call('gnss:prn2sat', gn(s), prn)
    lab = g.call('gnss:sat2id', sat)
    g.ensure('label', lab == '%s%02d' % (ch, prn-off))
    g.ensure('label reads back', g.call('gnss:id2sat', lab) == sat)
    g.ensure('label with a trailing field', g.call('gnss:id2sat', lab+' 1.0') == sat)


@contract('S01', fns=['gnss:char2sys', 'gnss:sys2char', 'gnss:sys2str', 'gnss:id2sat'], n=60)
def letters(g):
    s, lo, hi, ch, off = g.choice('sys', TAB)
    g.ensure('letter to constellation', g.call('gnss:char2sys', ch) == gn(s))
    g.ensure('constellation to letter', g.call('gnss:sys2char', gn(s)) == ch)
    g.ensure('list of letters', g.call('gnss:char2sys', ch+'G?') == [gn(s), gn('GPS'), gn('NONE')])
    g.ensure('list of constellations', g.call('gnss:sys2char', [gn(s), gn('GAL')]) == [ch, 'E'])
    nm = {'GPS': 'GPS', 'GLO': 'GLONASS', 'GAL': 'GALILEO', 'BDS': 'BEIDOU', 'QZS': 'QZSS', 'SBS': 'SBAS', 'IRN': 'IRNSS'}
    g.ensure('name', g.call('gnss:sys2str', gn(s)) == nm[s])
    bad = g.choice('bad', list('ABDFHKLMNOPQTUVWXYZ?gre0'))
    g.ensure('unknown letter', And(g.call('gnss:char2sys', bad) == gn('NONE'), g.call('gnss:id2sat', bad+'01') == -1))
    g.ensure('unknown constellation', And(g.call('gnss:sys2char', gn('NONE')) == '?', g.call('gnss:sys2str', gn('NONE')) == ''))
