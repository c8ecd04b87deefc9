"""C09: skewed cylinders are the trapezoidal sums, over the azimuth, of Biot-Savart integrals along the skewed generators"""
from symwiz.harness import Case
from .common import sc1, no_skew_line, P


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def nodes(M, n, shift):
    """quadrature points and trapezoidal weights of n points over one turn"""
    h = 2 * M.pi / (n - 1)
    return [(shift + k * h, h * (M.q(1, 2) if k in (0, n - 1) else 1)) for k in range(n)]


def point(M, R, where):
    if where == 'axis':
        return 0 * R, M.q(0), M.var('z', (-2, 2))
    r, z = M.pos('r', (0.3, 2)), M.var('z', (-2, 2))
    if where == 'plane':
        z = 0 * z
    return r, M.var('psi', (0.2, 1)), z


def generators(kind, n, where, m0=False, cart=True):
    def run(M):
        R = M.pos('R')
        r, psi, z = point(M, R, where)
        g = M.var('g', (0.5, 2))
        m = M.q(0) if m0 else M.var('m', (-1, 1))
        C = M.np.sqrt(1 + m * m)
        np = M.np
        SV = M.wiz.VortexCylinderSkewed
        e = (m / C, 0 * m, 1 / C)
        x = (r * np.cos(psi), r * np.sin(psi), z)
        acc, sc = [0, 0, 0], 1e-9
        terms = []
        for th, w in nodes(M, n, M.pi / n if kind == 'longi' else M.pi / 2):
            c, s = np.cos(th), np.sin(th)
            d = (x[0] - R * c, x[1] - R * s, z)     # from the start of the generator to the point
            A2 = R * R + r * r + z * z - 2 * R * r * np.cos(th - psi)
            A = np.sqrt(A2)
            B = d[0] * e[0] + d[1] * e[1] + d[2] * e[2]
            # off the generators
            M.assume(A2, '>=', R * R / M.q(10**4))
            M.assume(A * (A - B), '>=', R * R / M.q(10**4))
            terms.append((w, c, s, d, A, B))
        f = SV.svc_longi_u_polar if kind == 'longi' else SV.svc_tang_u_polar
        k = {'gamma_l' if kind == 'longi' else 'gamma_t': g}
        u = sc1(f(M.arr([r]), M.arr([psi]), M.arr([z]), R=R, m=m, ntheta=n, polar_out=not cart, **k))
        for w, c, s, d, A, B in terms:
            if kind == 'longi':
                q = cross(e, d)
                v = [w * qi / (A * (A - B)) for qi in q]
            else:
                t = (-s, c, 0 * c)
                q1, q2 = cross(t, d), cross(t, e)
                v = [w * (a / (A * (A - B)) - b / (A - B)) for a, b in zip(q1, q2)]
            acc = [a + b for a, b in zip(acc, v)]
        ref = [g * R / (4 * M.pi) * a for a in acc]
        if not cart:
            c, s = np.cos(psi), np.sin(psi)
            ref = [ref[0] * c + ref[1] * s, ref[1] * c - ref[0] * s, ref[2]]
        for i in range(3):
            M.eq('component %d' % i, u[i], ref[i], scale=1e-6)
    return run


def centre(n):
    """rotor centre: gamma/2 and gamma/2 tan(chi/2) up to the quadrature error"""
    def run(M):
        g, R = M.pos('g'), M.pos('R')
        C = M.pos('C', (1.01, 1.1))
        m = M.var('m', (-0.4, 0.4))
        M.assume(m * m, '<=', M.q(1, 4))
        z = M.arr([0 * R])
        u = sc1(M.wiz.VortexCylinderSkewed.svc_tang_u_polar(z, z, z, gamma_t=g, R=R, m=m, ntheta=n))
        C = M.np.sqrt(1 + m * m)
        t2 = m / (1 + C)            # tan(chi/2)
        for lb, a, b in (('axial', u[2], g / 2), ('lateral', u[0], g / 2 * t2)):
            M.le(lb + ' from above', a, b + g * M.q(1, 1000))
            M.ge(lb + ' from below', a, b - g * M.q(1, 1000))
        M.eq('transverse', u[1], 0, scale=1e-6)
    return run


def root(where, polar):
    """filament from the origin along the skewed axis"""
    def run(M):
        G, m = M.var('G', (0.5, 2)), M.var('m', (-1, 1))
        M.assume(G, '!=')
        r, psi, z = M.pos('r', (0.3, 2)), M.var('psi', (0.2, 1)), M.var('z', (-2, 2))
        if where == 'straight':
            m = M.q(0)
        if where == 'plane':
            z = 0 * z
        M.assume(r, '>', M.q(1, 100))
        np = M.np
        c, s = np.cos(psi), np.sin(psi)
        x = (r * c, r * s, z)
        no_skew_line(M, *x, P(m=m))
        C = np.sqrt(1 + m * m)
        e = (m / C, 0 * m, 1 / C)
        f = M.wiz.VortexCylinderSkewed.svc_root_u_polar
        u = sc1(f(M.arr([r]), M.arr([psi]), M.arr([z]), Gamma_r=G, m=m, polar_out=polar))
        d = np.sqrt(r * r + z * z)
        q = cross(e, x)
        ref = [G / (4 * M.pi) * v / (d * (d - (x[0] * e[0] + x[2] * e[2]))) for v in q]
        if polar:
            ref = [ref[0] * c + ref[1] * s, ref[1] * c - ref[0] * s, ref[2]]
        for i in range(3):
            M.eq('component %d' % i, u[i], ref[i], scale=1e-6)
    return run


def cases(tier):
    th = tier == 'thorough'
    cs = []
    for kind in ('longi', 'tang'):
        for n in ((2, 3, 4, 5, 6) if th else (2, 3, 4)):
            for w in ('any', 'plane', 'axis'):
                for m0 in (False, True):
                    for cart in (True, False):
                        if n == 2 and w != 'any' or kind == 'longi' and not cart and n == 4 and not th:
                            continue
                        if n > 5 and (w != 'axis' or not m0) or n > 4 and kind == 'longi' and not (m0 or w == 'axis'):
                            continue        # too many square roots in one sum
                        cs.append(Case('%s_%d_%s%s%s' % (kind, n, w, '_straight' if m0 else '', '' if cart else '_pol'), generators(kind, n, w, m0, cart),
                                       '%d quadrature points' % n, cost=n, assume_defined=True))
    for n in (9,) + ((13,) if th else ()):
        cs.append(Case('centre_%d' % n, centre(n), '%d quadrature points, |m|<=1/2' % n, cost=3, assume_defined=True))
    for w in ('any', 'plane', 'straight'):
        for pol in (False, True):
            cs.append(Case('root_%s%s' % (w, '_pol' if pol else ''), root(w, pol), 'one point', assume_defined=True))
    return cs
