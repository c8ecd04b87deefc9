"""C10: output forms, input forms, wrappers and mirror symmetries of the skewed elements"""
from symwiz.harness import Case
from symwiz import stubs
from .common import sc1, no_skew_line, P


def pol(M):
    r, psi, z = M.pos('r', (0.3, 2)), M.var('psi', (0.2, 1)), M.var('z', (-2, 2))
    M.assume(r, '>', M.q(1, 1000))
    return r, psi, z


def par(M, kind, zero=False):
    m = M.q(0) if zero else M.var('m', (-1, 1))
    g, R = M.var('g', (0.5, 2)), M.pos('R')
    M.assume(g, '!=')
    return g, R, m


def off(M, kind, r, c, s, z, R, m, n, also=()):
    """off the generators that the quadrature uses / off the root vortex"""
    np = M.np
    for (c, s, mm) in [(c, s, m)] + list(also):
        if kind == 'root':
            no_skew_line(M, r * c, r * s, z, P(m=mm))
            continue
        C = np.sqrt(1 + mm * mm)
        for k in range(n):
            th = 2 * M.pi * k / (n - 1) + (M.pi / n if kind == 'longi' else M.pi / 2)
            a, b = np.cos(th), np.sin(th)
            A2 = R * R + r * r + z * z - 2 * R * r * (a * c + b * s)
            A = np.sqrt(A2)
            B = ((r * c - R * a) * mm + z) / C
            M.assume(A2, '>=', R * R / M.q(10**4))
            M.assume(A * (A - B), '>=', R * R / M.q(10**4))


def fpol(M, kind, a, g, R, m, n, polar):
    S = M.wiz.VortexCylinderSkewed
    if kind == 'longi':
        return sc1(S.svc_longi_u_polar(*a, gamma_l=g, R=R, m=m, ntheta=n, polar_out=polar))
    if kind == 'tang':
        return sc1(S.svc_tang_u_polar(*a, gamma_t=g, R=R, m=m, ntheta=n, polar_out=polar))
    return sc1(S.svc_root_u_polar(*a, Gamma_r=g, m=m, polar_out=polar))


def fcart(M, kind, a, g, R, m, n, polar):
    S = M.wiz.VortexCylinderSkewed
    if kind == 'longi':
        return sc1(S.svc_longi_u(*a, gamma_l=g, R=R, m=m, ntheta=n, polar_out=polar))
    if kind == 'tang':
        return sc1(S.svc_tang_u(*a, gamma_t=g, R=R, m=m, ntheta=n, polar_out=polar))
    return sc1(S.svc_root_u(*a, Gamma_r=g, m=m, polar_out=polar))


def A(M, *v):
    return [M.arr([x]) for x in v]


def sizes(v):
    return 1e-7 + max(abs(float(x)) for x in v)


def same(M, what, a, b):
    sc = 1e-6 if M.sym else sizes(list(a) + list(b))
    for i, (p, q) in enumerate(zip(a, b)):
        M.eq('%s component %d' % (what, i), p, q, scale=sc)


def where_(M, where, r, psi, z):
    if where == 'plane':
        return r, psi, 0 * z
    if where == 'axis':
        return 0 * r, 0 * psi, z
    return r, psi, z


def forms(kind, n, where, zero=False):
    """polar and Cartesian outputs describe the same vector"""
    def run(M):
        r, psi, z = pol(M)
        g, R, m = par(M, kind, zero)
        r, psi, z = where_(M, where, r, psi, z)
        c, s = M.np.cos(psi), M.np.sin(psi)
        off(M, kind, r, c, s, z, R, m, n)
        u = fpol(M, kind, A(M, r, psi, z), g, R, m, n, False)
        p = fpol(M, kind, A(M, r, psi, z), g, R, m, n, True)
        M.true('three components', len(u) == 3 and len(p) == 3)
        same(M, 'velocity', p, (u[0] * c + u[1] * s, u[1] * c - u[0] * s, u[2]))
    return run


def inputs(kind, n, polar, zero=False, quad=None):
    """Cartesian control points"""
    def run(M):
        x, y, z = M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))
        g, R, m = par(M, kind, zero)
        M.assume(x * x + y * y, '>', M.q(1, 1000))
        r = M.np.sqrt(x * x + y * y)
        c, s = x / r, y / r
        off(M, kind, r, c, s, z, R, m, n)
        psi = M.np.arctan2(y, x)
        u = fcart(M, kind, A(M, x, y, z), g, R, m, n, polar)
        p = fpol(M, kind, A(M, r, psi, z), g, R, m, n, False)
        if polar:
            p = (p[0] * c + p[1] * s, p[1] * c - p[0] * s, p[2])
        same(M, 'velocity', u, p)
    return run


def total(polar, n=3):
    """combined function"""
    def run(M):
        r, psi, z = pol(M)
        gt, gl, Gr = M.var('gt', (0.5, 2)), M.var('gl', (0.5, 2)), M.var('Gr', (0.5, 2))
        R, m = M.pos('R'), M.var('m', (-1, 1))
        M.assume(Gr, '!=')
        M.assume(m, '!=')
        c, s = M.np.cos(psi), M.np.sin(psi)
        for k in ('longi', 'tang', 'root'):
            off(M, k, r, c, s, z, R, m, n)
        a = lambda: A(M, r, psi, z)
        u = sc1(M.wiz.VortexCylinderSkewed.svc_u_polar(*a(), gt, gl, Gr, R=R, m=m, ntheta=n, polar_out=polar))
        v = [fpol(M, k, a(), g, R, m, n, polar) for k, g in (('longi', gl), ('tang', gt), ('root', Gr))]
        same(M, 'sum', u, [sum((q[i] for q in v[1:]), v[0][i]) for i in range(3)])
    return run


def mirror(kind, axis, n):
    """x -> -x with m -> -m, y -> -y"""
    def run(M):
        r, psi, z = pol(M)
        g, R, m = par(M, kind)
        c, s = M.np.cos(psi), M.np.sin(psi)
        if axis == 'x':
            psi2, m2, c2, s2 = M.pi - psi, -m, -c, s
        else:
            psi2, m2, c2, s2 = -psi, m, c, -s
        off(M, kind, r, c, s, z, R, m, n, also=[(c2, s2, m2)])
        u = fpol(M, kind, A(M, r, psi, z), g, R, m, n, False)
        v = fpol(M, kind, A(M, r, psi2, z), g, R, m2, n, False)
        ax, ay, az = (-1, 1, 1) if axis == 'x' else (1, -1, 1)
        if kind == 'root':          # circulation about the axis changes sign in a mirror
            ax, ay, az = -ax, -ay, -az
        same(M, 'mirrored', v, (ax * u[0], ay * u[1], az * u[2]))
    return run


def straight_root(M):
    r, psi, z = pol(M)
    G = M.var('G', (0.5, 2))
    M.assume(G, '!=')
    x, y = r * M.np.cos(psi), r * M.np.sin(psi)
    no_skew_line(M, x, y, z, P(m=M.q(0)))
    L = M.wiz.VortexLine
    for p in (False, True):
        u = fpol(M, 'root', A(M, r, psi, z), G, None, 0, 0, p)
        v = sc1(L.vl_semiinf_straight_u_polar(*A(M, r, psi, z), Gamma_r=G, polar_out=p))
        same(M, 'polar %s' % p, u, v)


def wrapper(which, nout, zero=False, n=3):
    """legacy wrappers: (u_z, u_psi, u_x, u_y, u_zeta, u_xi, u_r)[:nout]"""
    def run(M):
        r, psi, z = pol(M)
        g, R, m = M.var('g', (0.5, 2)), M.q(1), M.q(0) if zero else M.var('m', (-1, 1))
        M.assume(g, '!=')
        kind = {'fV_Trailed': 'longi', 'fV_Tangential': 'tang', 'fV_Root': 'root'}[which]
        c, s = M.np.cos(psi), M.np.sin(psi)
        off(M, kind, r, c, s, z, R, m, n)
        f = getattr(M.wiz.VortexCylinderSkewed, which)
        a = A(M, r, psi, z)
        o = f(*a, m=m, Gamma_r=g, nout=nout) if kind == 'root' else f(*a, m, g, n, nout=nout)
        if nout == 1:
            o = (o,)
        o = sc1(o)
        u = fpol(M, kind, A(M, r, psi, z), g, R, m, n, False)
        C = M.np.sqrt(1 + m * m)
        cc, sc = 1 / C, m / C
        ref = (u[2], u[1] * c - u[0] * s, u[0], u[1], u[2] * cc + u[0] * sc, u[0] * cc - u[2] * sc, u[0] * c + u[1] * s)
        M.true('number of outputs', len(o) == nout)
        same(M, which, o, ref[:nout])
    return run


def helpers(M):
    """rotations by the skew angle and to polar components keep the length of the vector"""
    S = M.wiz.VortexCylinderSkewed
    ux, uy, uz, m, psi = [M.var(n) for n in ('ux', 'uy', 'uz', 'm', 'psi')]
    C = M.np.sqrt(1 + m * m)
    ze, xi = S.skew_components(*A(M, ux, uz), m)
    M.eq('u_zeta', ze[0], (uz + m * ux) / C)
    M.eq('u_xi', xi[0], (ux - m * uz) / C)
    M.eq('length', ze[0] * ze[0] + xi[0] * xi[0], ux * ux + uz * uz)
    ur, up = S.polar_components(*A(M, ux, uy, psi))
    c, s = M.np.cos(psi), M.np.sin(psi)
    M.eq('u_r', ur[0], ux * c + uy * s)
    M.eq('u_psi', up[0], uy * c - ux * s)


def cases(tier):
    th = tier == 'thorough'
    cs = []
    D = dict(assume_defined=True)
    for kind in ('tang', 'longi', 'root'):
        ns = (0,) if kind == 'root' else (2, 3, 4, 5) if th else (3, 4)
        for n in ns:
            for w in ('any', 'plane') + (('axis',) if kind != 'root' else ()):
                for zero in (False, True):
                    if zero and w == 'axis' and kind == 'root':
                        continue
                    cs.append(Case('forms_%s_%d_%s%s' % (kind, n, w, '_straight' if zero else ''), forms(kind, n, w, zero), '%d quadrature points' % n, cost=max(n, 1), **D))
        for p in (False, True):
            cs.append(Case('inputs_%s_%s' % (kind, 'pol' if p else 'cart'), inputs(kind, 3, p), '3 quadrature points', cost=3, **D))
    for p in (False, True):
        cs.append(Case('total_%s' % ('pol' if p else 'cart'), total(p), '3 quadrature points', cost=4, **D))
    for n in ((3, 4, 5, 6) if th else (3, 4)):
        cs.append(Case('mirror_x_tang_%d' % n, mirror('tang', 'x', n), '%d quadrature points' % n, cost=3, **D))
        if n % 2:
            cs.append(Case('mirror_y_tang_%d' % n, mirror('tang', 'y', n), '%d quadrature points' % n, cost=3, **D))
    for a in 'xy':
        cs.append(Case('mirror_%s_root' % a, mirror('root', a, 0), 'one point', cost=2, **D))
    cs.append(Case('root_straight', straight_root, 'one point', **D))
    for w in ('fV_Trailed', 'fV_Tangential', 'fV_Root'):
        for no in (range(1, 8) if th else (1, 2, 4, 7)):
            cs.append(Case('%s_%d' % (w, no), wrapper(w, no), '3 quadrature points', **D))
        cs.append(Case('%s_straight' % w, wrapper(w, 7, True), '3 quadrature points', **D))
    cs.append(Case('helpers', helpers, 'any vector and angle'))
    return cs
