"""C02: velocity fields are divergence-free and irrotational away from vorticity"""
from symwiz.harness import Case
from .common import mods, call1, unit_xz, unit3, scale_of


def div_curl(M, f, xs, curl=True, source=None, div=True):
    out, d = M.grad(f, xs)
    (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = d
    sc = scale_of(M, a1, a2, a3, b1, b2, b3, c1, c2, c3)
    if div:
        M.eq('divergence', a1 + b2 + c3, 0, fd=True, scale=sc)
    if curl:
        w = (c2 - b3, a3 - c1, b1 - a2)
        s = source or (0, 0, 0)
        for n, x, y in zip('xyz', w, s):
            M.eq('curl ' + n, x, y, fd=True, scale=sc)


def polar(f, zne=None, div=True):
    """axisymmetric (ur,uz)(r,z)"""
    def run(M):
        r, z = M.pos('r', (0.3, 2.5)), M.var('z', (-2, 2))
        g = f(M, r, z)
        (ur, uz), d = M.grad(g, (r, z))
        (dur_dr, dur_dz), (duz_dr, duz_dz) = d
        sc = scale_of(M, dur_dr, dur_dz, duz_dr, duz_dz)
        M.eq('divergence', dur_dr + ur / r + duz_dz, 0, fd=True, scale=sc)
        M.eq('curl', dur_dz - duz_dr, 0, fd=True, scale=sc)
    return run


def off_axis(M, r, R):
    M.assume(r, '>=', R / M.q(10**5))


def off_rim(M, r, R):
    M.assume((r - R) * (r - R), '>=', R * R / M.q(10**8))


# ---- polar formulations
def ring_sing(name):
    def f(M, r, z):
        G, R = M.var('Gamma', (0.5, 2)), M.pos('R')
        off_rim(M, r, R)
        g = getattr(M.wiz.VortexRing, name)
        return lambda r, z: g(r, z, G, R)
    return polar(f)


def ring_polar(epsilon):
    def f(M, r, z):
        G, R, z0 = M.var('Gamma', (0.5, 2)), M.pos('R'), M.var('z0')
        off_rim(M, r, R)
        off_axis(M, r, R)
        k = {}
        if epsilon:
            e = M.pos('eps', (0.05, 0.2))
            k['epsilon'] = e
            # outside of the regularised core
            M.assume((r - R) * (r - R) + (z - z0) * (z - z0), '>', e * e)
        return lambda r, z: call1(M, M.wiz.VortexRing.ring_u_polar, r, z, Gamma=G, r0=R, z0=z0, **k)
    return polar(f)


def cyl(name):
    def f(M, r, z):
        G, R = M.var('gamma', (0.5, 2)), M.pos('R')
        off_rim(M, r, R)
        off_axis(M, r, R)
        M.assume(z, '!=')
        g = getattr(M.wiz.VortexCylinder, name)
        return lambda r, z: call1(M, g, r, 0 * r, z, gamma_t=G, R=R)
    return polar(f)


def cyl_fin(M, r, z):
    G, R, z1, L = M.var('gamma', (0.5, 2)), M.pos('R'), M.var('z1', (-2, 0)), M.pos('L')
    off_rim(M, r, R)
    off_axis(M, r, R)
    M.assume(z, '!=', z1)
    M.assume(z, '!=', z1 + L)
    g = M.wiz.VortexCylinder.cylinder_tang_u
    return lambda r, z: call1(M, g, r, 0 * r, z, gamma_t=G, R=R, z1=z1, z2=z1 + L)


def dbl_polar(M, r, z):
    m, z0 = M.var('mz', (0.5, 2)), M.var('z0')
    M.assume(r * r + (z - z0) * (z - z0), '>', M.q(1, 100))
    return lambda r, z: call1(M, M.wiz.VortexDoublet.doublet_u_polar, r, z, m_z=m, z0=z0)


def dbl_line_polar(M, r, z):
    m = M.var('dmz', (0.5, 2))
    M.assume(r, '>', M.q(1, 10**6))
    M.assume(z * z, '>', M.q(1, 10**8))
    return lambda r, z: call1(M, M.wiz.VortexDoublet.doublet_line_polar_u, r, z, dmz_dz=m)


# ---- Cartesian
def xyz(M):
    return M.var('x', (0.3, 2)), M.var('y', (0.3, 2)), M.var('z', (-2, 2))


def ring_cart(M):
    x, y, z = xyz(M)
    G, R = M.var('Gamma', (0.5, 2)), M.pos('R')
    r2 = x * x + y * y
    M.assume(r2, '>=', R * R / M.q(10**10))
    M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
    f = lambda x, y, z: call1(M, M.wiz.VortexRing.ring_u, x, y, z, Gamma=G, R=R, polar_out=False)
    div_curl(M, f, (x, y, z))


def cyl_cart(name, finite=False):
    def run(M):
        x, y, z = xyz(M)
        G, R = M.var('gamma', (0.5, 2)), M.pos('R')
        r2 = x * x + y * y
        M.assume(r2, '>=', R * R / M.q(10**10))
        M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
        k = {}
        if finite:
            z1, L = M.var('z1', (-2, 0)), M.pos('L')
            k = dict(z1=z1, z2=z1 + L)
            M.assume(z, '!=', z1)
            M.assume(z, '!=', z1 + L)
        else:
            M.assume(z, '!=')
        g = getattr(M.wiz.VortexCylinder, name)
        div_curl(M, lambda x, y, z: call1(M, g, x, y, z, gamma_t=G, R=R, polar_out=False, **k), (x, y, z))
    return run


def longi_cart(M):
    """open system of semi-infinite lines: only the divergence vanishes everywhere"""
    x, y, z = xyz(M)
    G, R = M.var('gamma', (0.5, 2)), M.pos('R')
    r2 = x * x + y * y
    M.assume(r2, '>=', R * R / M.q(10**10))
    M.assume((r2 - R * R) * (r2 - R * R), '>=', R * R * R * R / M.q(10**8))
    M.assume(z, '!=')
    div_curl(M, lambda x, y, z: call1(M, M.wiz.VortexCylinder.vc_longi_u, x, y, z, gamma_l=G, R=R, polar_out=False), (x, y, z), curl=False)


def src(M, x, y, z, G):
    """vorticity of the isotropic closure of a semi-infinite filament starting at the origin"""
    n = (x * x + y * y + z * z)
    n3 = n * n ** 0.5 if not M.sym else n * M.np.sqrt(n)
    return tuple(-G * c / (4 * M.pi * n3) for c in (x, y, z))


def line_gen(M):
    x, y, z = xyz(M)
    ex, ey, ez = unit3(M)
    G = M.var('Gamma', (0.5, 2))
    n2 = x * x + y * y + z * z
    M.assume(n2, '>', M.q(1, 10**4))
    na = M.np.sqrt(n2)
    M.assume(na - (x * ex + y * ey + z * ez), '>', M.q(1, 10**3))
    M.assume(na * (na - (x * ex + y * ey + z * ez)), '>', M.q(1, 10**6))
    f = lambda x, y, z: tuple(M.wiz.VortexLine.vl_semiinf_u(x, y, z, ex, ey, ez, G, 0, 0))
    div_curl(M, f, (x, y, z), source=src(M, x, y, z, G))


def line_straight(which):
    def run(M):
        x, y, z = xyz(M)
        G = M.var('Gamma', (0.5, 2))
        M.assume(G, '!=')
        M.assume(x * x + y * y, '>', M.q(1, 10**4))
        g = {'vl': lambda: M.wiz.VortexLine.vl_semiinf_straight_u, 'vc': lambda: M.wiz.VortexCylinder.vc_root_u,
             'svc': lambda: M.wiz.VortexCylinderSkewed.svc_root_u}[which]()
        f = lambda x, y, z: call1(M, g, x, y, z, Gamma_r=G)
        div_curl(M, f, (x, y, z), source=src(M, x, y, z, G))
    return run


def doublet_cart(M):
    x, y, z = xyz(M)
    m = [M.var('m' + c) for c in 'xyz']
    x0 = [M.var('x0'), M.var('y0'), M.var('z0')]
    n2 = (x - x0[0]) * (x - x0[0]) + (y - x0[1]) * (y - x0[1]) + (z - x0[2]) * (z - x0[2])
    M.assume(n2, '>', M.q(1, 100))
    f = lambda x, y, z: call1(M, M.wiz.VortexDoublet.doublet_u, x, y, z, m=m, x0=x0)
    div_curl(M, f, (x, y, z))


def dline_cart(skew, finite):
    def run(M):
        x, y, z = xyz(M)
        q = M.var('dmz', (0.5, 2))
        k = {}
        m = 0
        if skew:
            k['m'] = m = M.var('m', (-1, 1))
        if finite:
            k['L'] = M.pos('L')
        M.assume(y * y + (x - m * z) * (x - m * z), '>', M.q(1, 10**4))
        if finite:
            # general branch of the finite integrals
            c2 = 1 + m * m
            a2, b = x * x + y * y + z * z, m * x + z
            M.assume(a2 * c2 - b * b, '>', M.q(1, 10**4))
        f = lambda x, y, z: call1(M, M.wiz.VortexDoublet.doublet_line_u, x, y, z, q, **k)
        div_curl(M, f, (x, y, z))
    return run


def sv_div(kind, ntheta):
    def run(M):
        x, y, z = xyz(M)
        g, R, m = M.var('gamma', (0.5, 2)), M.pos('R'), M.var('m', (-1, 1))
        S = M.wiz.VortexCylinderSkewed
        F = getattr(S, 'svc_%s_u' % kind)
        k = {'gamma_' + kind[0]: g}
        M.assume(x * x + y * y, '>', M.q(1, 10**4))
        f = lambda x, y, z: call1(M, F, x, y, z, R=R, m=m, ntheta=ntheta, **k)
        div_curl(M, f, (x, y, z), curl=False)
    return run


def vp(viscous):
    def run(M):
        x, y = M.var('x'), M.var('y')
        px, py, G = M.var('px'), M.var('py'), M.var('Gamma', (0.5, 2))
        r2 = (x - px) * (x - px) + (y - py) * (y - py)
        M.assume(r2, '>', M.q(1, 100))
        rc = M.pos('rc')
        f = lambda x, y: M.wiz.VortexPoint.vp_u(M.arr([x, y]), M.arr([px, py]), G, rcore=rc, bViscous=viscous)
        (u, v), d = M.grad(f, (x, y))
        sc = scale_of(M, *d[0], *d[1])
        M.eq('divergence', d[0][0] + d[1][1], 0, fd=True, scale=sc)
        if not viscous:
            M.eq('curl', d[1][0] - d[0][1], 0, fd=True, scale=sc)
        else:
            # Lamb-Oseen vorticity
            M.eq('curl', d[1][0] - d[0][1], G / (M.pi * rc * rc) * M.np.exp(-r2 / (rc * rc)), fd=True, scale=sc)
    return run


def vps(model, order):
    def run(M):
        x, y = M.var('x'), M.var('y')
        px, py, G = M.var('px'), M.var('py'), M.var('Gamma', (0.5, 2))
        s = M.pos('s')
        r2 = (x - px) * (x - px) + (y - py) * (y - py)
        M.assume(r2, '>', M.q(1, 100))

        def f(x, y):
            u = M.wiz.VortexPoint.vps_u(M.arr([[x, y]]), M.arr([[px, py]]), M.arr([G]), SmoothModel=model, KernelOrder=order, SmoothParam=M.arr([s]))
            return u[0, 0], u[0, 1]
        (u, v), d = M.grad(f, (x, y))
        sc = scale_of(M, *d[0], *d[1])
        M.eq('divergence', d[0][0] + d[1][1], 0, fd=True, scale=sc)
        if model == 0:
            M.eq('curl', d[1][0] - d[0][1], 0, fd=True, scale=sc)
    return run


def cases(tier):
    th = tier == 'thorough'
    nt, nl = (5, 4) if th else (4, 3)
    cs = [Case('ring_sing', ring_sing('ring_u_polar_singular'), 'one point, r>0, |r-R|>=1e-4 R'),
          Case('ring_singb', ring_sing('ring_u_polar_singularb'), 'one point, r>0, |r-R|>=1e-4 R'),
          Case('ring_polar', ring_polar(False), 'one point, any ring position'),
          Case('ring_polar_eps', ring_polar(True), 'one point outside of the core'),
          Case('cyl_raw', cyl('cylinder_tang_semi_inf_u_raw'), 'one point, z!=0'),
          Case('cyl_guarded', cyl('vc_tang_u'), 'one point, r>=1e-5R, |r-R|>=1e-4R, z!=0'),
          Case('cyl_finite', polar(cyl_fin), 'one point, any z1<z2'),
          Case('doublet_polar', polar(dbl_polar), 'one point, |x-x0|>0.1'),
          Case('doublet_line_polar', polar(dbl_line_polar), 'one point off the line'),
          Case('ring_cart', ring_cart, 'one point'),
          Case('cyl_cart', cyl_cart('vc_tang_u'), 'one point'),
          Case('cyl_finite_cart', cyl_cart('cylinder_tang_u', True), 'one point', cost=3),
          Case('longi_cart', longi_cart, 'one point, divergence only'),
          Case('line_general', line_gen, 'one point, every direction but one pole', cost=3),
          Case('doublet_cart', doublet_cart, 'one point, any moment and position'),
          ]
    for w in ('vl', 'vc', 'svc'):
        cs.append(Case('root_straight_' + w, line_straight(w), 'one point off the line'))
    for s in (False, True):
        for fi in (False, True):
            cs.append(Case('doublet_line_skew%d_fin%d' % (s, fi), dline_cart(s, fi), 'one point', cost=4))
    for k in ('tang', 'longi'):
        cs.append(Case('skewed_%s_div' % k, sv_div(k, nt if k == 'tang' else nl), 'ntheta=%d, one point, any skew' % (nt if k == 'tang' else nl), cost=4, assume_defined=True))
    for v in (False, True):
        cs.append(Case('vp_visc%d' % v, vp(v), 'one point, one vortex'))
    for mo, od in ((0, 2), (1, 2), (1, 4), (1, 6), (1, 8), (2, 2), (2, 4), (2, 6), (2, 8), (2, 10)):
        cs.append(Case('vps_m%d_k%d' % (mo, od), vps(mo, od), 'one point, one vortex'))
    return cs
