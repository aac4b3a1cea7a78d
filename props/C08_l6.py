"""C08 QZSS L6 data parts are joined into frames in order and mixtures of facilities are rejected."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff, resolve

F = ['cssrlib:cssr.decode_l6msg', 'gnss:copy_buff']
PRE = 0x1acffc1d


def mk(g, vendor=None):
    d = resolve('cssrlib:cssr')()
    d.buff = g.buf('frame', 2500*8)
    d.facility = g.choice('fac', [-1, 2] if g.symbolic else [-1, 0, 1, 2, 3])
    d.fcnt = g.choice('fcnt', ([-1, 4] if d.facility == 2 else [0, 2]) if g.symbolic else range(-1, 6))
    o = g.int('ofst', 0, 8)
    msg = g.buf('msg', 2000+64)
    return d, msg, o, o*8


@contract('C08', fns=F, n=200)
def wrong_preamble(g):
    d, msg, o, i = mk(g)
    g.assume(g.field(msg, i, 32) != PRE)
    s = (d.fcnt, d.facility, d.buff)
    g.ensure('ignored', g.call('cssrlib:cssr.decode_l6msg', d, msg, o) == -1)
    g.ensure('state kept', And(d.fcnt == s[0], d.facility == s[1], d.buff is s[2]))


@contract('C08', fns=F, n=400, tmo=200, weight=4, bytearrays=True, ob_ms=60000)
def data_part(g):
    d, msg, o, i = mk(g)
    g.setfield(msg, i, 32, PRE)
    vendor = g.choice('vendor', [5] if g.symbolic and d.facility == 2 else [5, 2])
    g.setfield(msg, i+40, 3, vendor)
    fac, pt, sid = [g.concretize(x) for x in (g.field(msg, i+43, 2), g.field(msg, i+46, 1), g.field(msg, i+47, 1))]
    g.setfield(msg, i+45, 1, 0)
    who = [[0, 2, 1, 3], [2, 0, 3, 1]][pt][fac] if vendor == 5 else fac
    d.sid = g.int('earlier sid', -1, 1)
    k = g.int('k', 0, 2500*8-1)
    old, old_f, old_buf = g.bitat(d.buff, k), d.facility, d.buff
    n = 0 if sid == 1 else d.fcnt
    changed = old_f >= 0 and old_f != who
    if changed:
        n = -1
    if n >= 0:
        j = k-1695*n
        inside = And(j >= 0, j < 1695)
        want = g.bitat(msg, Ite(inside, i+49+j, 0))
    r = g.call('cssrlib:cssr.decode_l6msg', d, msg, o)
    g.ensure('header of the latest message', And(d.facility == who, d.pattern == pt, d.sid == sid))
    if n < 0:
        g.ensure('no frame to add to, or another facility: rejected', And(r == -1, d.fcnt == -1))
        if sid == 0:
            g.ensure('frame unchanged', Iff(g.bitat(d.buff, k), old))
        return
    g.ensure('accepted', r is None)
    g.ensure('next part expected', d.fcnt == n+1)
    got = g.bitat(d.buff, k)
    g.ensure('data bits in their place', Implies(inside, Iff(got, want)))
    g.ensure('other bits kept, or cleared by the first part', Implies(Not(inside), Iff(got, False if sid == 1 else old)))
    if sid == 1:
        g.ensure('previous frame kept aside', Iff(g.bitat(d.buff_p, k), old))


@contract('C08', fns=F, n=200, prove=False, why='five-part frame: composition of the step proved in data_part, executed')
def whole_frame(g):
    d = resolve('cssrlib:cssr')()
    parts = []
    fac = g.int('fac', 0, 3)
    for p in range(5):
        m = g.buf('m%d' % p, 2000)
        for o, w, v in ((0, 32, PRE), (40, 3, 5), (43, 2, fac), (45, 2, 0), (47, 1, 1 if p == 0 else 0)):
            g.setfield(m, o, w, v)
        parts.append(m)
    for m in parts:
        g.call('cssrlib:cssr.decode_l6msg', d, m, 0)
    k, p = g.int('k', 0, 1694), g.int('p', 0, 4)
    g.ensure('bit k of part p', g.bitat(d.buff, 1695*p+k) == g.bitat(parts[p], 49+k))
    g.ensure('five parts', d.fcnt == 5)
