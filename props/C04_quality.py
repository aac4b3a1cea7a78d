"""C04 quality indices: the URA message and the conversion between index and metres."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, isnan, Iff, resolve
from .cssr_common import U, CT, LISTS, FULL, decoder, head_fields, same_time

F = ['cssrlib:cssr.decode_cssr_ura', 'cssrlib:cssr.quality_idx', 'cssrlib:cssr.decode_head', 'cssrlib:cssre.quality2qi', 'cssrlib:cssr.set_t0']


def quality(c, v):
    """value in metres; None for undefined"""
    if c == 0 and v == 0:
        return None
    if c == 7 and v == 7:
        return 5.4665
    return (3.0**c*(1+v/4)-1)/1000


@contract('C04', fns=F, n=300)
def index_to_metres(g):
    d = resolve('cssrlib:cssr')()
    c, v = g.choice('c', range(8)), g.choice('v', range(8))
    q, w = g.call('cssrlib:cssr.quality_idx', d, c, v), quality(c, v)
    g.ensure('value in metres', isnan(q) if w is None else close(q, w))


@contract('C04', fns=F, n=300)
def metres_to_index(g):
    e = resolve('cssrlib:cssre')()
    c, v = g.choice('c', range(8)), g.choice('v', range(8))
    g.assume((c, v) not in ((0, 0), (7, 7)))
    r = g.call('cssrlib:cssre.quality2qi', e, quality(c, v))
    g.ensure('same index', And(r[0] == c, r[1] == v))


def quality_of(g, q, c, v):
    und = And(c == 0, v == 0)
    w = 1.0+v/4.0
    x = 0
    for k in range(8):
        x = Ite(c == k, (3.0**k*w-1)/1000, x)
    x = Ite(And(c == 7, v == 7), 5.4665, x)
    return Or(And(und, isnan(q)), And(Not(und), Not(isnan(q)), close(q, x)))


@contract('C04', fns=F, n=500, tmo=120, weight=3, max_paths=4000)
def ura_message(g):
    d, sl = decoder(g, g.choice('lst', (LISTS[:4] if g.symbolic else LISTS)+[FULL]))
    d.lc[0].ura = {9999: 1}
    msg, i0 = g.buf('msg', 800), g.int('i', 0, 200 if len(sl) < 9 else 0)
    dtow, udi, iod = head_fields(g, msg, i0)
    g.assume(dtow < 3600)
    e = g.call('cssrlib:cssr.decode_cssr_ura', d, msg, i0)
    if not bool(iod == d.iodssr):
        g.ensure('message of another mask is refused', And(e == -1, d.lc[0].ura == {9999: 1}))
        return
    i = i0+21
    t = g.call('gnss:gpst2time', 2200, d.tow0+dtow)
    g.ensure('exactly the listed satellites', len(d.lc[0].ura) == len(sl))
    for c, s in sl:
        g.ensure('accuracy of each satellite', quality_of(g, d.lc[0].ura[s], g.field(msg, i, 3), g.field(msg, i+3, 3)))
        i = i+6
    g.ensure('message length', e == i)
    g.ensure('bookkeeping', And(same_time(d.time, t), d.udi[CT('URA')] == udi, d.lc[0].cstat & (1 << CT('URA')) != 0, same_time(d.lc[0].t0[0][CT('URA')], t)))
