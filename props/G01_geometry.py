"""G01 coordinates, frames, line of sight and dilution of precision are geometrically consistent."""
import math
import numpy as np
from vc.api import contract, And, Or, Not, Implies, Ite, close, absv, Iff, resolve

OMGE, CL = 7.2921151467e-5, 299792458.0
A, F_ = 6378137.0, 1/298.257223563
E2 = F_*(2-F_)


def vec(g, n, lim=4.5e7):
    return g.array([g.real('%s%d' % (n, k), -lim, lim) for k in range(3)])


def dot3(a, b):
    return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]


@contract('G01', fns=['gnss:geodist'], n=500, tmo=120)
def range_and_line_of_sight(g):
    rs, rr = vec(g, 's'), vec(g, 'r', 1e7)
    d = [rs[k]-rr[k] for k in range(3)]
    d2 = dot3(d, d)
    g.assume(d2 > 1e6)
    rho, e = g.call('gnss:geodist', rs, rr)
    q = rho-OMGE*(rs[0]*rr[1]-rs[1]*rr[0])/CL
    g.ensure('distance without the earth rotation term is the Euclidean one', And(q >= 0, close(q*q, d2, 1e-9)))
    g.ensure('direction is along receiver to satellite', And([close(e[k]*q, d[k], 1e-6) for k in range(3)]))


@contract('G01', fns=['gnss:xyz2enu', 'gnss:ecef2enu'], n=400, tmo=120)
def local_frame_is_orthonormal(g):
    pos = g.array([g.real('lat', -math.pi/2, math.pi/2), g.real('lon', -math.pi, math.pi), g.real('h', -1e3, 1e6)])
    E = g.call('gnss:xyz2enu', pos)
    for i in range(3):
        for j in range(3):
            g.ensure('rows %d %d' % (i, j), close(dot3(E[i], E[j]), 1.0 if i == j else 0.0, 1e-9))
    cr = [E[0][1]*E[1][2]-E[0][2]*E[1][1], E[0][2]*E[1][0]-E[0][0]*E[1][2], E[0][0]*E[1][1]-E[0][1]*E[1][0]]
    g.ensure('right handed: east x north = up', And([close(cr[k], E[2][k], 1e-9) for k in range(3)]))
    g.ensure('east is horizontal', close(E[0][2], 0))
    r = [g.real('d%d' % k, -100, 100) for k in range(3)]
    e = g.call('gnss:ecef2enu', pos, g.array(r))
    g.ensure('components of a vector', And([close(e[k], dot3(E[k], r), 1e-9) for k in range(3)]))


@contract('G01', fns=['gnss:enu2xyz', 'gnss:xyz2enu'], n=400, prove=False, why='matrix inversion through LAPACK')
def inverse_frame(g):
    pos = [g.real('lat', -math.pi/2, math.pi/2), g.real('lon', -math.pi, math.pi), 0.0]
    E, X = g.call('gnss:xyz2enu', pos), g.call('gnss:enu2xyz', pos)
    g.ensure('inverse', np.abs(E@X-np.eye(3)).max() < 1e-12)
    g.ensure('east north up axes', np.abs(X.T-E).max() < 1e-12)


@contract('G01', fns=['gnss:pos2ecef'], n=600, tmo=100)
def geodetic_to_cartesian(g):
    lat, lon, h = g.real('lat', -math.pi/2, math.pi/2), g.real('lon', -math.pi, math.pi), g.real('h', -1e4, 1e6)
    r = g.call('gnss:pos2ecef', g.array([lat, lon, h]))
    r0 = g.call('gnss:pos2ecef', g.array([lat, lon, 0.0]))
    E = g.call('gnss:xyz2enu', g.array([lat, lon, h]))
    for k in range(3):
        g.ensure('height is measured along the local vertical %d' % k, close(r[k]-r0[k], h*E[2][k], 1e-6))


@contract('G01', fns=['gnss:pos2ecef'], n=1000, prove=False, why='needs a nonlinear bound over the binary value of the flattening constant')
def ellipsoid(g):
    lat, lon = g.real('lat', -math.pi/2, math.pi/2), g.real('lon', -math.pi, math.pi)
    r0 = g.call('gnss:pos2ecef', g.array([lat, lon, 0.0]))
    g.ensure('zero height lies on the WGS84 ellipsoid', close((r0[0]*r0[0]+r0[1]*r0[1])/A**2*(1-F_)**2+r0[2]*r0[2]/A**2, (1-F_)**2, 1e-9))


@contract('G01', fns=['gnss:ecef2pos', 'gnss:pos2ecef'], n=3000, prove=False, conc_s=15,
          why='iterative inversion of transcendental functions: convergence is outside the arithmetic theories')
def cartesian_to_geodetic(g):
    lat, lon = g.real('lat', -math.pi/2+1e-6, math.pi/2-1e-6), g.real('lon', -math.pi+1e-9, math.pi)
    h = g.real('h', -1e4, g.choice('hmax', [1e4, 2.5e7]))
    p = [lat, lon, h]
    r = g.call('gnss:pos2ecef', list(p))
    q = g.call('gnss:ecef2pos', r)
    g.ensure('latitude and longitude', abs(q[0]-lat)*A < 1e-3 and abs(math.remainder(q[1]-lon, 2*math.pi))*math.cos(lat)*A < 1e-3)
    g.ensure('height', abs(q[2]-h) < 1e-3)
    d = np.array([math.degrees(lat), math.degrees(lon), h])
    g.ensure('degrees', np.abs(g.call('gnss:pos2ecef', d, True)-r).max() < 1e-6)


@contract('G01', fns=['gnss:satazel', 'gnss:ecef2enu'], n=1500, prove=False, why='inverse trigonometric functions of the C library')
def azimuth_elevation(g):
    lat, lon = g.real('lat', -1.57, 1.57), g.real('lon', -3.14, 3.14)
    az, el = g.real('az', -math.pi+1e-9, math.pi), g.real('el', -1.57, 1.57)
    E = g.call('gnss:xyz2enu', [lat, lon, 0])
    u = np.array([math.cos(el)*math.sin(az), math.cos(el)*math.cos(az), math.sin(el)])
    a2, e2 = g.call('gnss:satazel', [lat, lon, 0.0], E.T@u)
    g.ensure('azimuth from north, clockwise', abs(math.remainder(a2-az, 2*math.pi))*math.cos(el) < 1e-7)
    g.ensure('elevation', abs(e2-el) < 1e-6)


@contract('G01', fns=['gnss:dops', 'gnss:dops_h'], n=500, prove=False, why='matrix inversion through LAPACK')
def dilution_of_precision(g):
    n = g.choice('n', list(range(13))+[4, 5, 6, 20, 60])
    elmin = g.real('elmin', 0, 0.6)
    az = np.array([g.real('az%d' % k, -3.14, 3.14) for k in range(n)])
    el = np.array([g.real('el%d' % k, 0.0, 1.57) for k in range(n)])
    use = el >= elmin
    G = np.array([[math.cos(e)*math.sin(a), math.cos(e)*math.cos(a), math.sin(e), 1.0] for a, e in zip(az[use], el[use])])
    if n == 0:
        return
    if use.sum() < 4:
        g.ensure('too few satellites', g.call('gnss:dops', az, el, elmin) is None)
        return
    N = G.T@G
    g.assume(np.linalg.cond(N) < 1e8)
    d = g.call('gnss:dops', az, el, elmin)
    Q = np.diag(np.linalg.inv(N))
    ref = np.sqrt([Q.sum(), Q[:3].sum(), Q[0]+Q[1], Q[2]])
    g.ensure('GDOP PDOP HDOP VDOP of the satellites above the mask', np.abs(d/ref-1).max() < 1e-6)


@contract('G01', fns=['gnss:ionppp'], n=1500, prove=False, why='inverse trigonometric functions of the C library')
def pierce_point(g):
    lat, lon = g.real('lat', -1.5, 1.5), g.real('lon', -3.1, 3.1)
    az, el = g.real('az', -math.pi, math.pi), g.real('el', 0.02, 1.55)
    re, hi = 6378.0, g.choice('h', [350.0, 450.0])
    sf, pp = g.call('gnss:ionppp', [lat, lon, 0], az, el, re, hi)
    E = g.call('gnss:xyz2enu', [lat, lon, 0])
    u = E.T@np.array([math.cos(el)*math.sin(az), math.cos(el)*math.cos(az), math.sin(el)])
    r0 = re*E[2]
    b = float(r0@u)
    s = -b+math.sqrt(b*b+(re+hi)**2-re**2)
    p = (r0+s*u)/(re+hi)
    q = np.array([math.cos(pp[0])*math.cos(pp[1]), math.cos(pp[0])*math.sin(pp[1]), math.sin(pp[0])])
    g.ensure('on the line of sight at shell height', np.abs(p-q).max() < 1e-7)
    g.ensure('slant factor is the secant of the zenith angle at the shell', abs(sf*float(p@u)-1) < 1e-7)


@contract('G01', fns=['gnss:deg2dms'], n=500)
def sexagesimal(g):
    d = g.real('deg', -180, 180)
    r = g.call('gnss:deg2dms', d)
    a = absv(d)
    g.assume(Or(d >= 0, a >= 1))
    sg = Ite(d < 0, -1.0, 1.0)
    g.ensure('ranges', And(r[1] >= 0, r[1] <= 60, r[2] >= 0, r[2] < 60+1e-6))
    g.ensure('value', close(sg*r[0]+r[1]/60.0+r[2]/3600.0, a, 1e-9))
    g.ensure('whole parts', And(close(sg*r[0]-r[0]//1*sg, 0)))
