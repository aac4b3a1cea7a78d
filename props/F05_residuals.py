"""F05 undifferenced residuals: every correction once and with its sign."""
import math
from contextlib import ExitStack
import numpy as np
from vc.api import contract, And, Or, Not, Ite, Iff, close, isnan, resolve, is_sym
from .f_common import history, G, T, sigs, freq, CL, sat, engine, cases

F = ['pppssr:pppos.zdres', 'pppssr:pppos.find_bias']
SC = resolve('cssrlib:sCSSRTYPE')
SETS = [[(G.GPS, 5), (G.GLO, 7)], [(G.GAL, 36), (G.GPS, 1)], [(G.QZS, 194), (G.BDS, 20)], [(G.GLO, 3), (G.QZS, 199)]]
NEG = (SC.QZS_CLAS, SC.BDS_PPP, SC.PVS_PPP)
TX = (SC.QZS_MADOCA, SC.GAL_HAS_SIS, SC.GAL_HAS_IDD, SC.IGS_SSR, SC.RTCM3_SSR, SC.BDS_PPP, SC.PVS_PPP)
# signals the orbit corrections of a service refer to
REF = {(SC.QZS_MADOCA, G.GPS): ('GC1W', 'GC2W'), (SC.QZS_MADOCA, G.GLO): ('RC1C', 'RC2C'), (SC.QZS_MADOCA, G.GAL): ('EC1C', 'EC5Q'),
       (SC.QZS_MADOCA, G.QZS): ('JC1C', 'JC5Q'), (SC.GAL_HAS_SIS, G.GPS): ('GC1W', 'GC2W'), (SC.GAL_HAS_SIS, G.GAL): ('EC1C', 'EC7Q'),
       (SC.RTCM3_SSR, G.GPS): ('GC1C',), (SC.RTCM3_SSR, G.GLO): ('RC1C',), (SC.RTCM3_SSR, G.GAL): ('EC1C',), (SC.RTCM3_SSR, G.BDS): ('CC2I',),
       (SC.RTCM3_SSR, G.QZS): ('JC1C',), (SC.BDS_PPP, G.GPS): ('GC1W', 'GC2W'), (SC.BDS_PPP, G.BDS): ('CC6I',),
       (SC.PVS_PPP, G.GPS): ('GC1C', 'GC5Q'), (SC.PVS_PPP, G.GAL): ('EC1C', 'EC5Q')}


class Osb:
    def __init__(self, tab):
        self.tab = tab

    def getosb(self, s, t, sig):
        return self.tab[(int(s), str(sig))]


@contract('F05', fns=F, n=700, tmo=120)
def residuals(g):
    nf, src, trop, iono, phw, ant, net, sl, defect, rtype = cases(
        g, 45, nf=[1, 2], src=['none', 'osb', SC.QZS_CLAS, SC.QZS_MADOCA, SC.GAL_HAS_SIS, SC.RTCM3_SSR, SC.BDS_PPP, SC.PVS_PPP],
        trop=[0, 1, 2], iono=[0, 1, 2], phw=[0, 1, 2], ant=[0, 1], net=[0, 3], sats=SETS,
        defect=['', '', 'edited', 'nobias', 'notx', 'norx', 'notinnet'], rtype=[0, 1])
    hascs = src not in ('none', 'osb')
    if not hascs and 2 in (trop, iono):
        trop, iono = min(trop, 1), min(iono, 1)
    o, nav = engine(nf, 1, trop_opt=trop, iono_opt=iono, phw_opt=phw, ephopt=4 if src == 'osb' else 2)
    history(nav)
    nav.elmin = 0.2
    nav.rsun = np.array([1.5e11, 1e9, 2e9])
    nav.rcv_ant = object() if ant else None
    nav.tidecorr = resolve('gnss:uTideModel').IERS2010
    n = len(sl)
    S = np.array([sat(*q) for q in sl])
    nav.glo_ch = {sat(*q): 3 for q in sl if q[0] == G.GLO}
    obs = resolve('gnss:Obs')()
    obs.sat, obs.sig = S, {}
    for s, _ in sl:
        obs.sig[s] = sigs(s, nf)
    obs.t = resolve('gnss:gtime_t')(1700000000, 0.0)
    r_ = lambda nm, lo, hi: g.real(nm, lo, hi)
    P = [[r_('P%d%d' % (i, f), 2e7, 3e7) for f in range(nf)] for i in range(n)]
    L = [[r_('L%d%d' % (i, f), 1e8, 2e8) for f in range(nf)] for i in range(n)]
    obs.P, obs.L = g.array([a for q in P for a in q]).reshape(n, nf), g.array([a for q in L for a in q]).reshape(n, nf)
    dts = [r_('dts%d' % i, -1e-3, 1e-3) for i in range(n)]
    dist = [r_('rho%d' % i, 2e7, 3e7) for i in range(n)]
    el = [r_('el%d' % i, 0, 1.57) for i in range(n)]
    shap = [r_('shap%d' % i, 0, 0.1) for i in range(n)]
    mh, mw = [r_('mh%d' % i, 1, 6) for i in range(n)], [r_('mw%d' % i, 1, 6) for i in range(n)]
    hs, wet, hs0, wet0 = r_('hs', 2, 2.5), r_('wet', 0, 0.5), r_('hs0', 2, 2.5), r_('wet0', 0.05, 0.5)
    disp = [r_('disp%d' % c, -1, 1) for c in range(3)]
    wu = [r_('wu%d' % i, -2, 2) for i in range(n)]
    ph, pw = r_('trph', 2, 2.5), r_('trpw', 0, 0.5)
    los = [[r_('e%d%d' % (i, c), -1, 1) for c in range(3)] for i in range(n)]
    rx = {(i, t, f): r_('rx%d%s%d' % (i, t, f), -1, 1) for i in range(n) for t in 'PL' for f in range(nf)}
    tx = {(i, t, f): r_('tx%d%s%d' % (i, t, f), -1, 1) for i in range(n) for t in 'PL' for f in range(nf)}
    glo = g.array([0.0]*233)
    nav.phw = glo
    cs = bsx = None
    B = {(i, t, f): 0 for i in range(n) for t in 'PL' for f in range(nf)}
    Bn = dict(B)
    if src == 'osb':
        tab = {}
        for i in range(n):
            for t, ty in (('P', T.C), ('L', T.L)):
                for f, sg in enumerate(obs.sig[sl[i][0]][ty]):
                    v = r_('osb%d%s%d' % (i, t, f), -20, 20)
                    if defect == 'nobias' and i == 0 and f == nf-1 and t == 'P':
                        v = math.nan
                    tab[(int(S[i]), str(sg))] = v
                    if t == 'P' or sl[i][0] != G.GLO:
                        B[(i, t, f)] = -v*(CL*1e-9)
        bsx = Osb(tab)
    inet = net if hascs and 2 in (trop, iono) else -1
    stec = [r_('stec%d' % i, 0, 50) for i in range(n)]
    if hascs:
        cs = resolve('cssrlib:cssr')()
        cs.cssrmode = src
        X = resolve('cssrlib:sCType')
        for k in sorted({0, net}):
            lc = cs.lc[k]
            lc.cstat = (1 << X.CBIAS) | (1 << X.PBIAS)
            if k and g.choice('part', [0, 0, 0, 1]) == 1:
                lc.cstat = 1 << X.CBIAS
            lc.sat_n = [int(q) for q in S[::-1]]
            lc.cbias, lc.pbias = {}, {}
            for i in range(n):
                for t, ty, dst in (('P', T.C, lc.cbias), ('L', T.L, lc.pbias)):
                    d = dst[int(S[i])] = {}
                    for f, sg in enumerate(obs.sig[sl[i][0]][ty]):
                        v = r_('b%d_%d%s%d' % (k, i, t, f), -9, 9)
                        if defect == 'nobias' and i == 0 and t == 'P' and f == 0 and k == 0:
                            v = math.nan
                        key = sg
                        if f == 1 and i == 0 and k == 0:
                            key = sg.toAtt('X')
                        d[key] = v
                        if k == 0 or inet > 0 and (t == 'P' or lc.cstat & (1 << X.PBIAS)):
                            tgt = B if k == 0 else Bn
                            tgt[(i, t, f)] = v if src not in NEG else (-v)
            if defect == 'notinnet' and k:
                lc.sat_n = [int(S[1])]
    if defect == 'edited':
        nav.edt[S[0]-1, 0] = 1
    rs = [[1e7*(i+1), 2e7, 3.0, 1, 2, 3] for i in range(n)]
    idx = lambda v: int(round(float(v[0])/1e7))-1
    cur = [0]
    seen = {}

    def dist_(rsat, u):
        i = cur[0] = idx(rsat)
        seen[i] = u
        return dist[i], g.array(los[i])

    N = (lambda v: v) if g.symbolic else np.float64

    def tm(t, pos, **k):
        z = pos[2]
        return (hs0, wet0, 1) if not is_sym(z) and z == 0 else (hs, wet, 1)

    def arx(nv, pos, e, sg, rt=1):
        i = cur[0]
        seen['rtype'] = rt
        v = [rx[(i, 'P' if s.typ == T.C else 'L', obs.sig[sl[i][0]][s.typ].index(s))] for s in sg]
        if defect == 'norx' and i == 0:
            v[-1] = math.nan
        return g.array(v)

    def atx(nv, e, sg, st, t, rsat, sig0=None):
        i = cur[0]
        seen['sig0', i] = sig0
        if defect == 'notx' and i == 0:
            return None
        return g.array([tx[(i, 'P' if s.typ == T.C else 'L', obs.sig[sl[i][0]][s.typ].index(s))] for s in sg])
    posi = np.array([0.6, 2.4, 50.0])
    with ExitStack() as st:
        for path, fn in (('pppssr:ecef2pos', lambda r: posi), ('pppssr:geodist', dist_), ('pppssr:satazel', lambda pos, e: (0.0, el[cur[0]])),
                         ('pppssr:tidedispIERS2010', lambda t, pos, **k: g.array(disp)), ('pppssr:gpst2utc', lambda t: t),
                         ('pppssr:tropmodel', tm), ('pppssr:tropmapf', lambda t, pos, e_, model=None: (N(mh[cur[0]]), N(mw[cur[0]]))),
                         ('pppssr:shapiro', lambda a, b: shap[cur[0]]), ('pppssr:windupcorr', lambda *a, **k: wu[cur[0]]),
                         ('pppssr:antModelRx', arx), ('pppssr:antModelTx', atx),
                         ('cssrlib:cssr.find_grid_index', lambda self, pos: net), ('cssrlib:cssr.get_dpos', lambda self, pos: (0.1, 0.2)),
                         ('cssrlib:cssr.get_trop', lambda self, a, b: (ph, pw)), ('cssrlib:cssr.get_stec', lambda self, a, b: g.array(stec))):
            st.enter_context(g.stub(path, fn))
        rr = [r_('rr%d' % c, -1e3, 1e3) for c in range(3)]
        ra = g.array(rr)
        y, e, elo = g.call('pppssr:pppos.zdres', o, obs, cs, bsx, g.array([a for q in rs for a in q]).reshape(n, 6),
                           g.array([0.0]*(3*n)).reshape(n, 3), g.array(dts), ra, rtype)
    for c in range(3):
        g.ensure('the position argument is unchanged', ra[c] == rr[c])
    usetx = src == 'osb' or src in TX
    for i in range(n):
        s = sl[i][0]
        k = (n-1-i)                      # place of the satellite in the network's list
        skip = i == 0 and (defect == 'edited' or defect == 'nobias' and src != 'none' or defect == 'notx' and usetx or
                           defect == 'norx' and ant or defect == 'notinnet' and inet > 0)
        if skip:
            g.ensure('rejected satellite has no residual', And(*[y[i, f] == 0 for f in range(2*nf)]))
            continue
        low = el[i] < 0.2
        if i in seen:
            for c in range(3):
                g.ensure('range at the tide-corrected position', close(seen[i][c], rr[c]+disp[c], 1e-9))
        tr = mh[i]*ph*(hs/hs0)+mw[i]*pw*(wet/wet0) if trop == 2 else mh[i]*hs+mw[i]*wet
        g.ensure('elevation', elo[i] == el[i])
        for c in range(3):
            g.ensure('line of sight', e[i, c] == los[i][c])
        if ant:
            g.ensure('receiver antenna of the station', Or(low, seen.get('rtype') == rtype))
        if usetx and src != 'osb' and ('sig0', i) in seen:
            w = REF.get((src, s))
            got = seen['sig0', i]
            g.ensure('reference signals of the service', (got is None) == (w is None) and (w is None or [str(q) for q in got] == [
                str(resolve('gnss:rSigRnx')(q)) for q in w]))
        for f in range(nf):
            fr = freq(s, f, 3)
            lam = CL/fr
            io = 40.3e16/(fr*fr)*stec[k] if iono == 2 and inet > 0 else 0
            com = dist[i]+shap[i]-CL*dts[i]+tr
            aP = (rx[(i, 'P', f)] if ant else 0)+(tx[(i, 'P', f)] if usetx else 0)
            aL = (rx[(i, 'L', f)] if ant else 0)+(tx[(i, 'L', f)] if usetx else 0)
            wP = P[i][f]-(com+aP+io-B[(i, 'P', f)]-Bn[(i, 'P', f)])
            wL = L[i][f]*lam-(com+aL-io-B[(i, 'L', f)]-Bn[(i, 'L', f)]+(lam*wu[i] if phw else 0))
            g.ensure('code residual', Or(And(low, y[i, nf+f] == 0), And(Not(low), close(y[i, nf+f], wP, 1e-4, rel=False))))
            g.ensure('carrier residual', Or(And(low, y[i, f] == 0), And(Not(low), close(y[i, f], wL, 1e-4, rel=False))))


@contract('F05', fns=['pppssr:pppos.find_bias'], n=300, tmo=60)
def bias(g):
    """the bias of each listed signal: its own, otherwise that of the combined signal, of no other"""
    R = resolve('gnss:rSigRnx')
    mode, pat, typ, inet, case = cases(g, 60, mode=[SC.QZS_CLAS, SC.QZS_MADOCA, SC.GAL_HAS_SIS, SC.GAL_HAS_IDD, SC.RTCM3_SSR, SC.BDS_PPP, SC.PVS_PPP],
                                       pat=[0, 1, 2, 3, 4, 5], typ=['C', 'L'], inet=[0, 3], case=['', '', '', 'nosat', 'none'])
    many = ['1C', '1W', '2W', '2L', '5Q', '5X', '1X', '2X', '2S', '2P', '5I', '1P', '1L', '1S', '2C']
    want, have = [(['1C', '2W'], ['1C', '2W']), (['1C', '2W'], ['1C', '2P']), (['2P', '2W', '2L'], ['2P', '2X', '1C']), (['5Q', '2W'], ['5X', '1W']),
                  (many, many[::2]+['7X']), (many[::-1], ['1X', '2X', '2P', '5I'])][pat]
    has = mode in (SC.GAL_HAS_SIS, SC.GAL_HAS_IDD)
    if has and '2P' in have:
        have = [q for q in have if q != '2W']
    o = engine(2, 1)[0]
    cs = resolve('cssrlib:cssr')()
    cs.cssrmode = mode
    s = sat(G.GPS, 9)
    vals = {}
    for t, nm in (('C', 'cbias'), ('L', 'pbias')):
        for k in (0, 3):
            tab = {}
            for q in have:
                tab[R('G'+t+q)] = vals[t, k, q] = g.real('b%s%d%s' % (t, k, q), -9, 9)
            setattr(cs.lc[k], nm, None if case == 'none' and k == inet else {sat(G.GPS, 8): {R('G'+t+q): 77.0 for q in many}} | (
                {} if case == 'nosat' and k == inet else {s: tab}))
    r = g.call('pppssr:pppos.find_bias', o, cs, [R('G'+typ+q) for q in want], s, inet)
    g.ensure('one value per signal', len(r) == len(want))
    for k, q in enumerate(want):
        w = 0.0
        if not case:
            p = '2P' if has and q == '2W' and '2P' in have else q
            for a in (p, q[0]+'X'):
                if a in have:
                    w = vals[typ, inet, a]
                    break
        g.ensure('bias of the signal', r[k] == w)
    g.ensure('no signal, no bias', len(g.call('pppssr:pppos.find_bias', o, cs, [], s, inet)) == 0)
