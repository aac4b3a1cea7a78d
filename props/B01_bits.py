"""B01 bit-level access: copying and multi-part fields touch exactly the named bits."""
from vc.api import contract, And, Or, Not, Implies, Ite, close, Iff, resolve

SZ = 4096


def fld(g, b, off, w, signed=False):
    return g.field(b, off, w, signed)


@contract('B01', fns=['gnss:copy_buff'], n=600, tmo=150, weight=4, max_paths=400)
def copied_bits_and_untouched_bits(g):
    n = g.choice('len', list(range(0, 100))+[112, 127, 128, 129, 222, 234, 236, 256, 300])
    src, dst = g.buf('src', SZ), g.buf('dst', SZ)
    so, do = g.int('ofs_s', 0, SZ-n), g.int('ofs_d', 0, SZ-n)
    k = g.int('k', 0, SZ-1)
    before = g.bitat(dst, k)
    s0 = g.bitat(src, k)
    j = k-do
    want = g.bitat(src, Ite(And(j >= 0, j < n), so+j, 0))
    g.call('gnss:copy_buff', src, dst, so, do, n)
    after = g.bitat(dst, k)
    inside = And(j >= 0, j < n)
    g.ensure('inside the destination window: the source bit', Implies(inside, Iff(after, want)))
    g.ensure('outside the window: unchanged', Implies(Not(inside), Iff(after, before)))
    g.ensure('source unchanged', Iff(g.bitat(src, k), s0))


@contract('B01', fns=['gnss:copy_buff'], n=60, tmo=150, weight=2, max_paths=400, ob_ms=60000)
def long_page(g):
    # the QZSS L6 data part: 1695 bits, five pages side by side
    page = g.int('page', 0, 4)
    src, dst = g.buf('src', 2048), g.buf('dst', 1695*5+64)
    k = g.int('k', 0, 1695*5)
    j = k-1695*page
    inside = And(j >= 0, j < 1695)
    before = g.bitat(dst, k)
    want = g.bitat(src, Ite(inside, 49+j, 0))
    g.call('gnss:copy_buff', src, dst, 49, 1695*page, 1695)
    g.ensure('page copied, neighbours kept', Iff(g.bitat(dst, k), Or(And(inside, want), And(Not(inside), before))))


FR = ['rawnav:RawNav.getbitu2', 'rawnav:RawNav.getbits2', 'rawnav:RawNav.getbitu3', 'rawnav:RawNav.getbits3', 'rawnav:RawNav.getbitg', 'rawnav:RawNav.u2s']


def raw():
    R = resolve('rawnav:RawNav')
    return R.__new__(R)


def cat(g, b, parts):
    v = 0
    for p, l in parts:
        v = v*(1 << l)+g.field(b, p, l)
    return v


def sgn(v, w, top=None):
    return Ite((v >= (1 << (w-1))) if top is None else top, v-(1 << w), v)


@contract('B01', fns=FR, n=800, weight=2, tmo=120)
def split_fields(g):
    l1, l2, l3 = g.choice('lens', [(1, 1, 1), (2, 6, 3), (8, 24, 5), (10, 12, 8), (11, 5, 1), (22, 10, 7), (5, 13, 18), (1, 31, 9), (3, 8, 24), (16, 16, 2)])
    b = g.buf('b', 512)
    p1, p2, p3 = g.int('p1', 0, 400), g.int('p2', 0, 400), g.int('p3', 0, 400)
    r = raw()
    v2 = cat(g, b, [(p1, l1), (p2, l2)])
    v3 = cat(g, b, [(p1, l1), (p2, l2), (p3, l3)])
    g.ensure('two parts', g.call('rawnav:RawNav.getbitu2', r, b, p1, l1, p2, l2) == v2)
    g.ensure('two parts signed', g.call('rawnav:RawNav.getbits2', r, b, p1, l1, p2, l2) == sgn(v2, l1+l2, g.bitat(b, p1)))
    g.ensure('three parts', g.call('rawnav:RawNav.getbitu3', r, b, p1, l1, p2, l2, p3, l3) == v3)
    g.ensure('three parts signed', g.call('rawnav:RawNav.getbits3', r, b, p1, l1, p2, l2, p3, l3) == sgn(v3, l1+l2+l3, g.bitat(b, p1)))


@contract('B01', fns=FR, n=400)
def twos_complement(g):
    w = g.choice('w', range(1, 40))
    u = g.int('u', 0, (1 << w)-1)
    g.ensure('two\'s complement value', g.call('rawnav:RawNav.u2s', raw(), u, w) == sgn(u, w))


@contract('B01', fns=FR, n=400)
def sign_magnitude(g):
    w = g.choice('w', [2, 5, 11, 12, 22, 24, 27])
    b = g.buf('b', 256)
    p = g.int('p', 0, 200)
    s = g.field(b, p, 1)
    m = g.field(b, p+1, w-1)
    g.ensure('sign and magnitude', g.call('rawnav:RawNav.getbitg', raw(), b, p, w) == Ite(s == 1, -m, m))
