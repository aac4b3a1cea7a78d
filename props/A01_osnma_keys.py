"""A01 OSNMA keys: only a root key signed by a trusted public key, and public keys in the Merkle tree, are used."""
import os
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, Implies, close, resolve
from .f_common import cases

O = 'osnma:osnma.'
KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {5: 20, 6: 24, 7: 28, 8: 32, 9: 40}
LOADED, VERIFIED, CHAIN, PKR = 1, 2, 4, 32


def nma(g):
    d = resolve('osnma:osnma')(logfile=os.devnull)
    d.fh.close()
    d.fh = None
    d.monlevel = 0
    d.vstatus = {}
    g.lift(d, 1)
    return d


def eqb(a, b):
    r = a == b
    return r


def cat(*p):
    r = p[0]
    for x in p[1:]:
        r = r+x
    return r


def one(v):
    if isinstance(v, int):
        return bytearray([v])
    from vc.models import frombytes
    return frombytes([v])


def b(buf, i, n):
    return buf[i:i+n]


PRM = ['pkid', 'cidkr', 'hf', 'mf', 'ks', 'ts', 'maclt', 'wn', 'towh']


def dsm_header(g, m, nb, ks, ts, hf, mf):
    for o, w, v in ((0, 4, nb), (12, 2, hf), (14, 2, mf), (16, 4, ks), (20, 4, ts)):
        g.setfield(m, o, w, v)


def fields(g, m):
    return {'pkid': g.field(m, 4, 4), 'cidkr': g.field(m, 8, 2), 'hf': g.field(m, 12, 2), 'mf': g.field(m, 14, 2), 'ks': g.field(m, 16, 4), 'ts': g.field(m, 20, 4),
            'maclt': g.field(m, 24, 8), 'wn': g.field(m, 36, 12), 'towh': g.field(m, 48, 8)}


@contract('A01', fns=[O+'decode_dsm_kroot', O+'verify_pdk', O+'verify_root_key'], n=200, tmo=120, bytearrays=True)
def root_key(g):
    """the parameters in use are those of the latest complete message; they count
    as verified only after their own signature was checked"""
    ks, nb, ts, hf, mf, st, key, sig, same = cases(g, 26, ks=range(10), nb=[0, 1, 2, 4, 7, 8], ts=[5, 6, 7, 8, 9, 9, 4, 15], hf=[0, 0, 0, 2, 1], mf=[0, 1, 1, 2],
                                                   st=[0, 1, 7], key=['have', 'have', 'none', 'other'], sig=[1, 1, 0], same=[0, 1])
    d = nma(g)
    m = g.buf('dsm', 250*8)
    dsm_header(g, m, nb, ks, ts, hf, mf)
    did = [0, 11][ks % 2] if g.symbolic else g.choice('did', [0, 3, 11])
    if g.symbolic:
        g.setfield(m, 4, 4, [1, 15, 0, 8][nb % 4])
    d.dsm = {did: m}
    d.nma_header = g.int('hdr', 0, 255)
    lk = KLEN[ks] if ks < 9 else 0
    d.status = st
    d.pkid, d.cidkr, d.hf, d.mf, d.ks, d.ts, d.maclt, d.wn, d.towh = 15, 0, 0, 0, 4, 9, 27, 100, 5
    d.alp, d.kroot, d.ds = bytearray(6), bytearray(16), bytearray(64)
    d.msg_kroot = bytearray(29)
    d.gst_sf_c = b'\1\2\3\4'
    old = {k: getattr(d, k) for k in PRM+['alp', 'kroot', 'ds', 'msg_kroot']}
    H = g.buf('hash', 256)
    seen = []
    l_pdk = (nb+6)*104-104-lk-512
    ok = ks < 9 and ts in TLEN and hf in (0, 2) and mf in (0, 1) and l_pdk >= 0
    i = 13+lk//8
    hdr = cat(one(d.nma_header), b(m, 1, i-1))
    pdk = b(m, i+64, l_pdk//8) if ok else None

    def hash_(self, msg):
        seen.append(msg)
        return H
    g.assume(Not(And(g.field(m, 4, 4) == 15, g.field(m, 0, 8) == 0)))
    with g.stub(O+'process_hash', hash_):
        r = g.call(O+'decode_dsm_kroot', d, did)
    if not ok:
        g.ensure('reserved or incomplete message is refused', And(r is False, d.status == st, *[getattr(d, k) == old[k] for k in PRM]))
        return
    g.ensure('hash over header, message and signature', And(len(seen) == 1, eqb(seen[0], cat(hdr, b(m, i, 64)))))
    good = eqb(b(H, 0, l_pdk//8), pdk)
    g.ensure('accepted if the padding is the hash', Iff(r, good))
    f = fields(g, m)
    if not good:
        g.ensure('nothing changed otherwise', And(d.status == st, *[getattr(d, k) == old[k] for k in PRM]))
        g.ensure('key in use kept', And(eqb(d.kroot, old['kroot']), eqb(d.alp, old['alp']), eqb(d.ds, old['ds'])))
        return
    for k in PRM:
        g.ensure('parameter '+k, getattr(d, k) == f[k])
    kr, ds, alp = b(m, 13, lk//8), b(m, i, 64), b(m, 7, 6)
    g.ensure('root key and seed', And(eqb(d.kroot, kr), eqb(d.alp, alp)))
    g.ensure('loaded but not verified', d.status == (st & ~(VERIFIED | CHAIN)) | LOADED)
    g.ensure('chain is verified again', eqb(d.gst_sf_c, bytearray(4)))
    # the message may be received again while its signature is checked
    if same:
        d.status = 7
        d.gst_sf_c = b'\1\2\3\4'
        with g.stub(O+'process_hash', hash_):
            r = g.call(O+'decode_dsm_kroot', d, did)
        g.ensure('the same root key again keeps its state', And(r, d.status == 7, d.gst_sf_c == b'\1\2\3\4'))
        return
    m2 = g.buf('later', 250*8)
    d.dsm[did] = m2
    d.nma_header = 0
    got = []

    class Key:
        def verify(self, s, t, alg):
            got.append((s, t))
            if not sig:
                raise resolve('osnma:InvalidSignature')()
    p = g.concretize(f['pkid'])
    d.pk_list = {} if key == 'none' else {(p if key == 'have' else (p+1) % 16): Key()}
    with g.stub('osnma:raw2der', lambda s: s):
        r = g.call(O+'verify_root_key', d)
    good = key == 'have' and sig == 1
    g.ensure('verified only with a valid signature of a known key', And(r == good, d.status == (st & ~(VERIFIED | CHAIN)) | LOADED | (VERIFIED if good else 0)))
    if key == 'have':
        g.ensure('the signature covers the root key and parameters in use', And(len(got) == 1, eqb(got[0][1], hdr), eqb(got[0][0], ds)))


@contract('A01', fns=[O+'verify_root_key'], n=20)
def not_loaded(g):
    d = nma(g)
    d.status = 0
    d.pkid = 1
    d.hf = 0
    d.pk_list = {1: None}
    g.ensure('no root key', And(g.call(O+'verify_root_key', d) is False, d.status == 0))
    d.status = 1
    g.ensure('no usable public key', And(g.call(O+'verify_root_key', d) is False, d.status == 1))


@contract('A01', fns=[O+'decode_hk'], n=400, tmo=120, bytearrays=True, merging=False)
def blocks(g):
    """a message is decoded when all its blocks are there, from the latest content"""
    kind, lost, left, cid2, mix = cases(g, 24, kind=['kroot', 'pkr', 'kroot'], lost=[0, 0, 1], left=[0, 1, 2], cid2=[0, 0, 1], mix=[0, 1])
    d = nma(g)
    d.dsm, d.flg_dsm, d.nb = {}, {}, {}
    did = {'kroot': 3, 'pkr': 13}[kind]
    nbv = g.choice('nb', [1, 2, 8] if kind == 'kroot' else [7, 8])
    n = nbv+6
    order = list(range(n))
    q = g.choice('rot', [[0, 1, n-1][nbv % 3]] if g.symbolic else [0, 1, n-1])
    order = order[q:]+order[:q]
    if g.choice('rev', [0, 1]):
        order.reverse()
    ncalls = [0]
    snap = []

    def done(self, k):
        ncalls[0] += 1
        snap.append((k, self.dsm[k][0:250]))
        return True

    def hk(nm, dd, bid, nmas=2, cpks=1, cid=1):
        x = g.buf(nm, 120)
        for o, w, v in ((0, 2, nmas), (2, 2, cid), (4, 3, cpks), (8, 4, dd), (12, 4, bid)):
            g.setfield(x, o, w, v)
        if bid == 0:
            g.setfield(x, 16, 4, nbv)
        return x
    with g.stub(O+'decode_dsm_kroot', done), g.stub(O+'decode_dsm_pkr', done):
        if left:         # block of an earlier longer message of this number
            d.dsm[did], d.flg_dsm[did], d.nb[did] = g.buf('oldmsg', 250*8), 1 << 15 if left == 1 else 1 << order[-1] | 1 << 15, 0
            if left == 2:
                d.cid0 = 1
        x = {}
        for j, bid in enumerate(order):
            if mix and j == 2:
                y = hk('mix', 7, 0, cid=1)
                g.setfield(y, 16, 4, 3)
                g.call(O+'decode_hk', d, y, 5)
                g.call(O+'decode_hk', d, hk('skip', did, order[-1], nmas=[0, 3][nbv % 2]), 5)
                g.call(O+'decode_hk', d, hk('skip2', did, order[-1], cpks=0), 5)
            last = j == n-1
            if last and left != 2:
                g.ensure('not before all blocks are there', ncalls[0] == 0)
            if last and lost:
                break
            x[bid] = hk('b%d' % bid, did, bid, cid=2 if cid2 and j == 0 else 1)
            k0 = ncalls[0]
            r = g.call(O+'decode_hk', d, x[bid], 5)
            if left == 2 and ncalls[0] > k0:
                break
        if cid2 and n > 1 and not left:
            g.ensure('blocks of another chain are not used', ncalls[0] == 0)
            return
        if left == 2 or cid2:
            return
        if lost:
            g.ensure('incomplete message', ncalls[0] == 0)
            return
        g.ensure('decoded once, as the message of its number', And(ncalls[0] == 1, snap[0][0] == did, r))
        for bid in range(n):
            g.ensure('content of the blocks', eqb(b(snap[0][1], 13*bid, 13), b(x[bid], 2, 13)))
        r = g.call(O+'decode_hk', d, x[0], 5)
        g.ensure('collected again afterwards', And(ncalls[0] == 1, Not(r)))


@contract('A01', fns=[O+'decode_dsm_pkr', O+'verify_pdp'], n=300, tmo=120, bytearrays=True)
def renewal(g):
    """a new public key is taken only if it is a leaf of the Merkle tree"""
    npkt, nb, root = cases(g, 24, npkt=[1, 1, 3, 4, 0, 2, 9], nb=[7, 8, 9, 10, 6, 11], root=['have', 'have', 'have', 'none'])
    d = nma(g)
    m = g.buf('dsm', 250*8)
    mid = g.choice('mid', [0, 1, 6, 10, 13, 15] if g.symbolic else range(16))
    g.setfield(m, 0, 4, nb)
    g.setfield(m, 4, 4, mid)
    g.setfield(m, 1032, 4, npkt)
    npkid = g.choice('npkid', [(nb+npkt) % 16] if g.symbolic else range(16))
    g.setfield(m, 1036, 4, npkid)
    d.dsm = {13: m}
    d.status = 3
    d.hf = [-1, 0, 2][nb % 3]
    R = g.buf('root', 256) if root == 'have' else -1
    d.root_mt = R
    d.pk_list = {npkid: 'old', 99: 'other'}
    lnpk = {1: 33, 3: 67, 4: 13*(nb+6)-130}.get(npkt, 0)
    lp = 13*(nb+6)-130-lnpk
    ok = npkt in (1, 3, 4) and 7 <= nb <= 10 and lp >= 0
    H = [g.buf('h%d' % k, 256) for k in range(6)]
    seen, dec = [], []

    def hash_(self, msg):
        seen.append(msg)
        return H[len(seen)-1]

    def decomp(self, t, p):
        dec.append((t, p))
        return False if t == 4 else 'new'
    with g.stub(O+'process_hash_mt', hash_), g.stub(O+'process_hash', hash_), g.stub(O+'pubkey_decompress', decomp):
        r = g.call(O+'decode_dsm_pkr', d, 13)
    keep = And(d.pk_list == {npkid: 'old', 99: 'other'}, d.status == 3, Not(r))
    if not ok or root == 'none':
        g.ensure('refused', keep)
        return
    mi = cat(b(m, 129, 1), b(m, 130, lnpk))
    g.ensure('padding is the hash of root and leaf', eqb(seen[0], cat(R, mi)))
    pdp = eqb(b(H[0], 0, lp), b(m, 130+lnpk, lp))
    if not pdp:
        g.ensure('refused', keep)
        return
    g.ensure('leaf', eqb(seen[1], mi))
    for k in range(4):
        it = b(m, 1+32*k, 32)
        g.ensure('node %d' % k, eqb(seen[2+k], cat(it, H[1+k]) if mid >> k & 1 else cat(H[1+k], it)))
    if eqb(H[5], R):
        g.ensure('accepted', And(r, d.status == 3 | PKR))
        g.ensure('new key under its number', And(d.pk_list == {npkid: 'old' if npkt == 4 else 'new', 99: 'other'}, dec[0][0] == npkt, eqb(dec[0][1], b(m, 130, lnpk))))
    else:
        g.ensure('refused', keep)


@contract('A01', fns=['osnma:raw2der', O+'pubkey_decompress', O+'load_pubkey_pkid', O+'process_hash', O+'process_hash_mt'], n=60, prove=False,
          why='cryptography library: compared with its own functions')
def library(g):
    from cryptography.hazmat.primitives.asymmetric import ec, utils
    from cryptography.hazmat.primitives import serialization
    import hashlib
    s = g.buf('sig', 512)
    der = g.call('osnma:raw2der', s)
    r, t = utils.decode_dss_signature(der)
    g.ensure('signature', And(r == int.from_bytes(s[:32], 'big'), t == int.from_bytes(s[32:], 'big')))
    d = nma(g)
    k = g.choice('curve', [1, 3, 4])
    pk = ec.derive_private_key(g.int('priv', 2, 2**200), ec.SECP521R1() if k == 3 else ec.SECP256R1()).public_key()
    pt = pk.public_bytes(serialization.Encoding.X962, serialization.PublicFormat.CompressedPoint)
    q = g.call(O+'pubkey_decompress', d, k, pt)
    g.ensure('public key', (q is False) if k == 4 else q.public_numbers() == pk.public_numbers())
    d.pkid, d.pk_list = 5, {7: 'former'}
    with g.stub('osnma:load_pubkey', lambda p: None if 'no' in p else 'K'):
        a = g.call(O+'load_pubkey_pkid', d, 'x.pem', 9)
        b = g.call(O+'load_pubkey_pkid', d, 'x.pem', 7)
        c = g.call(O+'load_pubkey_pkid', d, 'no.txt', 3)
    g.ensure('key stored under its number', And(a is True, b is True, c is False, d.pk_list == {9: 'K', 7: 'K'}))
    m = g.buf('msg', 400)
    d.hf = 0
    g.ensure('SHA-256', And(g.call(O+'process_hash', d, bytes(m)) == hashlib.sha256(m).digest(), g.call(O+'process_hash_mt', d, bytes(m)) == hashlib.sha256(m).digest()))
    d.hf = 2
    g.ensure('SHA3-256', And(g.call(O+'process_hash', d, bytes(m)) == hashlib.sha3_256(m).digest(), g.call(O+'process_hash_mt', d, bytes(m)) == hashlib.sha256(m).digest()))


@contract('A01', fns=[O+'__init__'], n=20)
def independent(g):
    """two decoders do not share what they received"""
    a = nma(g)
    c = nma(g)
    for k in ('dsm', 'flg_dsm', 'nb', 'hk', 'mack', 'mack_p', 'mack_c', 'tag_list', 'pk_list', 'vstatus', 'cnt', 'subfrm', 'subfrm_n', 'subfrm_p'):
        g.ensure('own '+k, getattr(a, k) is not getattr(c, k))
    g.ensure('size of the buffers', And(len(a.hk) == 36, len(c.hk) == 36, len(a.mack) == 36, len({id(x) for x in a.hk+c.hk+a.mack+c.mack}) == 144))
