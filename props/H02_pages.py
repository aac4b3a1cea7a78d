"""H02 Galileo HAS pages: any sufficient set of pages of one message restores exactly that message."""
import math
import numpy as np
from vc.api import contract, resolve, And, Or
_G = []


def gen():
    """generator matrix of the RS(255,32) code, first 32 rows the identity"""
    if not _G:
        import galois
        GF = galois.GF(256)
        rs = galois.ReedSolomon(255, 32)
        _G.append((np.array(rs.G).T.astype(np.uint8), GF))
    return _G[0]


def page(mid, ms, pid, data, hass=1, mt=1, dummy=False):
    b = 0
    head = (0xaf3bc3 if dummy else (hass << 22) | (0 << 20) | (mt << 18) | (mid << 13) | ((ms-1) << 8) | pid)
    v = head
    for x in data:
        v = (v << 8) | int(x)
    nbits = 14+24+424
    v <<= (-nbits) % 8
    return {'nav': v.to_bytes((nbits+7)//8, 'big').hex()}


@contract('H02', fns=['cssr_has:cnav_msg.decode_cnav', 'cssr_has:cnav_msg.decode_has_page'], n=250, prove=False,
          why='linear algebra over GF(256) in an external library', conc_s=25)
def reassembly(g):
    """a sequence of messages, their pages in random order with gaps, repeats, dummies and pages of the next message"""
    gm, GF = gen()
    c = resolve('cssr_has:cnav_msg')()
    c.gMat = gm
    rng = np.random.default_rng(g.int('seed', 0, 10**9))
    nm = g.int('messages', 1, 3)
    mids = list(rng.permutation(32)[:nm+1])
    for k in range(nm):
        ms = g.int('ms%d' % k, 1, 32) if k == 0 else g.int('ms%d' % k, 1, 6)
        msg = rng.integers(0, 256, (ms, 53))
        enc = np.array(GF(gm[:, :ms])@GF(msg.astype(np.uint8)))
        pids = [int(p) for p in rng.permutation(255)+1 if p <= ms or p > 32]     # the other pages are empty
        per = g.int('per%d' % k, 1, 40)
        noise = g.choice('noise%d' % k, [0, 1])
        got, out, sent, epochs = None, [], set(), 0
        while got is None and epochs < 2*ms+2:
            epochs += 1
            vi = []
            for _ in range(per):
                p = int(pids.pop()) if sent.__len__() == 0 or rng.random() < 0.8 or not noise else int(rng.choice(sorted(sent)))
                sent.add(p)
                vi.append(page(int(mids[k]), ms, p, enc[p-1]))
            if noise:
                vi.append(page(0, 1, 1, [0]*53, dummy=True))
                vi.append(page(int(mids[nm]), 3, 5, rng.integers(0, 256, 53), hass=2))
                if k:
                    vi.append(page(int(mids[0]), 3, 7, rng.integers(0, 256, 53)))
                rng.shuffle(vi)
            r = g.call('cssr_has:cnav_msg.decode_cnav', c, 1000+epochs, vi)
            if r is not None:
                got = bytes(r)
        g.ensure('message complete once enough pages arrived', got is not None and len(sent) >= ms)
        g.ensure('message restored', got[:53*ms] == msg.astype(np.uint8).tobytes() and not any(got[53*ms:]))
        g.ensure('type of the message', c.msgtype == 1 or noise)
        r = g.call('cssr_has:cnav_msg.decode_cnav', c, 2000, [page(int(mids[k]), ms, int(p), enc[p-1]) for p in sorted(sent)][:max(1, ms)])
        g.ensure('a decoded message is not decoded again', r is None)


@contract('H02', fns=['cssr_has:cnav_msg.decode_cnav', 'cssr_has:cnav_msg.decode_has_page'], n=12, prove=False, why='see reassembly', conc_s=10)
def long_history(g):
    """message numbers are used again after the others"""
    gm, GF = gen()
    c = resolve('cssr_has:cnav_msg')()
    c.gMat = gm
    rng = np.random.default_rng(g.int('seed', 0, 10**9))
    a, b = g.int('first', 0, 31), 2*g.int('step', 0, 15)+1
    for k in range(80):
        ms = 1+k % 3
        msg = rng.integers(0, 256, (ms, 53)).astype(np.uint8)
        enc = np.array(GF(gm[:, :ms])@GF(msg))
        pids = [int(p) for p in rng.permutation(255)+1 if p <= ms or p > 32][:ms]
        r = g.call('cssr_has:cnav_msg.decode_cnav', c, 1000+k, [page((a+k*b) % 32, ms, p, enc[p-1]) for p in pids])
        g.ensure('every message of a long sequence is restored', r is not None and bytes(r)[:53*ms] == msg.tobytes())


@contract('H02', fns=['cssr_has:cnav_msg.decode_cnav'], n=150, prove=False, why='see reassembly', conc_s=15)
def incomplete_message(g):
    """an abandoned message does not block the next one"""
    gm, GF = gen()
    c = resolve('cssr_has:cnav_msg')()
    c.gMat = gm
    rng = np.random.default_rng(g.int('seed', 0, 10**9))
    ms = g.int('ms', 2, 8)
    part = g.int('part', 1, 7)
    g.assume(part < ms)
    mid = g.int('mid', 0, 15)
    c.decode_cnav(0, [page(mid, ms, p+1, rng.integers(0, 256, 53)) for p in range(part)])
    n = g.int('n', 1, 4)
    msg = rng.integers(0, 256, (n, 53))
    enc = np.array(GF(gm[:, :n])@GF(msg.astype(np.uint8)))
    got = None
    for e in range(2*ms+n+6):
        p = int(rng.integers(0, 200))
        r = g.call('cssr_has:cnav_msg.decode_cnav', c, e, [page(mid+16, n, 33+(p+j), enc[32+p+j]) for j in range(n)])
        if r is not None:
            got = bytes(r)
    g.ensure('next message restored', got is not None and got[:53*n] == msg.astype(np.uint8).tobytes())


STEPS = [(1, -1, [], [], 0, (5,), 0), (1, -1, [], [9, 17], 1, (255,), 0), (1, 3, [4], [9], 0, (77,), 0), (1, 3, [199, 4], [], 0, (200,), 0), (1, 3, [199, 4], [17], 0, (1,), 1),
         (1, 3, [], [9, 17], 0, (1,), 0), (2, -1, [], [9], 1, (5, 200), 0), (2, 3, [4], [], 0, (77, 77), 0), (2, 3, [199], [9], 0, (1, 200), 0), (2, -1, [], [], 0, (200, 5), 1)]


@contract('H02', fns=['cssr_has:cnav_msg.decode_cnav'], merging=False, n=400, tmo=60)
def page_step(g):
    """one epoch with two pages: which pages are kept, and when the message is restored from them"""
    c = resolve('cssr_has:cnav_msg')()
    c.gMat = 'matrix'
    c.has_pages = np.zeros((255, 53), dtype=object)
    n, cur, rec, dec, late, pids, dummy = g.choice('case', STEPS)
    if cur == -1:
        rec = []
    c.mid_, c.rec, c.mid_decoded = cur, list(rec), list(dec)
    c.ms_ = g.int('need', len(rec)+1, 32) if cur >= 0 else g.choice('oldneed', [-1, 4])
    c.icnt = 64 if late and cur < 0 else 0
    vi, hd = [], []
    for k in range(n):
        b = g.buf('p%d' % k, 14+24+424+2)
        if k == 0 and dummy:
            g.setfield(b, 14, 24, 0xaf3bc3)
            hd.append(None)
        else:
            g.setfield(b, 30, 8, pids[k])
            g.assume(Or(g.field(b, 14, 16) != 0xaf3b, pids[k] != 0xc3))
            st = g.field(b, 14, 2)
            if k:
                g.assume(st < 2)
            hd.append((st, g.field(b, 18, 2), g.field(b, 20, 5), g.field(b, 25, 5)+1, pids[k], [g.field(b, 38+8*j, 8) for j in (0, 52)]))
        vi.append({'nav': g.hex(b)})
    if cur < 0 and c.ms_ == -1:
        c.icnt = 0
    need0 = c.ms_
    with g.stub('cssr_has:cnav_msg.decode_has_page', lambda self, idx, pages, m, ms: [list(idx), pages, m, ms]):
        r = g.call('cssr_has:cnav_msg.decode_cnav', c, 1000, vi)
    # which pages belong to the message being collected
    mid, need, have, rows, mt = cur, need0, list(rec), {}, None
    for h in hd:
        if h is None or bool(h[0] >= 2):
            continue
        mt = h[1]
        if mid == -1 and not any(bool(h[2] == x) for x in dec):
            mid, need = h[2], h[3]
        if not (isinstance(mid, int) and mid == -1) and bool(h[2] == mid) and h[4]-1 not in have:
            have.append(h[4]-1)
            rows[h[4]-1] = h[5]
    for p in rows:
        g.ensure('contents of a page kept under its number', [c.has_pages[p, j] == v for j, v in zip((0, 52), rows[p])])
    g.ensure('other pages kept', And(*[c.has_pages[p, 0] == 0 for p in (4, 199, 0, 254, 76) if p not in rows]))
    if mt is not None:
        g.ensure('type of the message', c.msgtype == mt)
    if have and bool(len(have) >= need):
        g.ensure('message restored once enough pages are there', r is not None)
        if r is None:
            return
        g.ensure('message restored from the pages received', And(r[0] == have, r[1] is c.has_pages, r[2] == 'matrix', r[3] == need))
        g.ensure('message completed once', And(c.rec == [], c.mid_ == -1, len(c.mid_decoded) == len(dec)+1, c.mid_decoded[-1] == mid, c.mid_decoded[:-1] == dec))
    else:
        g.ensure('nothing restored from fewer pages', And(r is None, c.mid_decoded == dec))
        g.ensure('pages kept for the next epoch', And(c.rec == have, c.mid_ == mid))
